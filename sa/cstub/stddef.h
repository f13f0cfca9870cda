typedef unsigned long size_t; void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
