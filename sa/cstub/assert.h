#define assert(x)
