#define NULL ((void*)0)
#define RAND_MAX __rand_max
extern int __rand_max;
typedef unsigned long size_t;
int rand(void); void srand(unsigned); void exit(int); void abort(void); int abs(int); void *malloc(size_t); void free(void *); void *calloc(size_t, size_t); void *memcpy(void *, const void *, size_t);
