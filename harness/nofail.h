#include <string.h>
#include <stdlib.h>
char *nf_strdup(const char *s); void *nf_malloc(size_t n); void *nf_calloc(size_t n, size_t m);
#define strdup nf_strdup
#define malloc nf_malloc
#define calloc nf_calloc
