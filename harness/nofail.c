/* allocation never fails */
#include <string.h>
#include "v.h"
char *nf_strdup(const char *s) { char *p = v_alloc(strlen(s) + 1, 0); strcpy(p, s); return p; }
void *nf_malloc(size_t n) { return v_alloc(n, 0); }
void *nf_calloc(size_t n, size_t m) { void *p = v_alloc(n * m, 0); memset(p, 0, n * m); return p; }
