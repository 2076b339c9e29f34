#include <stdlib.h>
#include <stdio.h>
#include "v.h"
#include "util.h"
static int opened, mode_len, readlen;
FILE *v_fopen(const char *n, const char *m) { (void)n; (void)m; if (v_choice(2)) return NULL; opened++; return (FILE *)v_alloc_named(4, 9, "file"); }
int v_fclose(FILE *f) { opened--; v_release(f, 9); return 0; }
int v_fseek(FILE *f, long o, int w) { (void)f; (void)o; (void)w; return v_choice(2) ? -1 : 0; }
long v_ftell(FILE *f) { (void)f; if (v_choice(2)) return -1; 
#ifdef SMALL
    return v_choice(4);
#else
    return v_long(0, 1L << 40);
#endif
}
size_t v_fread(void *p, size_t a, size_t b, FILE *f) { (void)f; v_writable(p, a * b); v_havoc(p, a * b); size_t n = v_long(0, 1L << 40); v_assume(n <= b); return n; }
void h_load(void)
{
    char *buf = (char *)8;
    long n = util_load_txt_file("x", &buf);
    v_assert(opened == 0, "the file is closed");
    if (n >= 0) { v_assert(buf != NULL, "a file that was read is returned"); v_readable(buf, n); 
#ifdef SMALL
        v_assert(buf[n] == 0, "the text is terminated");
#endif
        v_readable(buf + n, 1); free(buf); v_reach("loaded"); }
    else { v_assert(buf == NULL, "nothing is returned after an error"); v_assert(n == UTIL_FILE_ERROR || n == UTIL_NOMEM_ERROR, "a defined error"); v_reach("failed"); }
    v_assert_noleak("after loading a file");
}
static char *txt(int max)
{
    int n = v_choice(max + 1);
    char *p = v_buf(n + 1);
    for (int k = 0; k < n; k++) { p[k] = v_int(-128, 127); v_assume(p[k] != 0); }
    p[n] = 0;
    return p;
}
static size_t len_of(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
void h_str(void)
{
    size_t cap = v_choice(6), r;
    char *s = txt(4), *t = txt(4), *d = v_buf(cap);
    size_t a = len_of(s), b = len_of(t);
    r = util_strncpy(d, s, cap);
    if (cap == 0) { v_assert(r == 0, "nothing is written to an empty buffer"); util_strncat(d, t, 0, cap); v_stop(); }
    v_assert(r == a, "the length is that of the whole text");
    for (size_t k = 0; k < a && k + 1 < cap; k++) v_assert(d[k] == s[k], "the text is copied");
    v_assert(d[a < cap ? a : cap - 1] == 0, "the text is terminated");
    r = util_strncat(d, t, r, cap);
    v_assert(r == a + b, "the length is that of both texts");
    for (size_t k = 0; k < a && k + 1 < cap; k++) v_assert(d[k] == s[k], "the first text is kept");
    for (size_t k = 0; k < b && a + k + 1 < cap; k++) v_assert(d[a + k] == t[k], "the second text follows");
    v_assert(d[a + b < cap ? a + b : cap - 1] == 0, "the text is terminated");
    v_reach("joined");
}
