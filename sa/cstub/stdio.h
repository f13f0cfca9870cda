typedef struct FILE_ FILE; int printf(const char *, ...); int fprintf(FILE *, const char *, ...); extern FILE *stderr; extern FILE *stdout; int fflush(FILE *);
