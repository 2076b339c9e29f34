#include <stdio.h>
FILE *v_fopen(const char *n, const char *m); int v_fclose(FILE *f); int v_fseek(FILE *f, long o, int w); long v_ftell(FILE *f); size_t v_fread(void *p, size_t a, size_t b, FILE *f);
#define fopen v_fopen
#define fclose v_fclose
#define fseek v_fseek
#define ftell v_ftell
#define fread v_fread
