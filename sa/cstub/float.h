#define DBL_EPSILON __dbl_epsilon
#define FLT_EPSILON __flt_epsilon
extern double __dbl_epsilon; extern float __flt_epsilon;
