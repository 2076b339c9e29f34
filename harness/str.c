/* library functions in terms of what the interpreter knows about strings */
#include <string.h>
#include "v.h"
char *strsep(char **q, const char *delim)
{
    char *p = *q;
    if (p == NULL) return NULL;
#ifdef EXACTSTR
    for (size_t k = 0; p[k]; k++) if (*delim && strchr(delim, p[k])) { p[k] = 0; *q = p + k + 1; return p; }
    *q = NULL;
    return p;
#else
    size_t n = strlen(p), nd = strlen(delim);
    if (n == 0 || nd == 0 || v_choice(2)) { *q = NULL; return p; }
    size_t k = v_int(0, (int)n - 1);
    v_assume(p[k] == delim[v_choice(nd)]);
    p[k] = 0;
    *q = p + k + 1;
    return p;
#endif
}
