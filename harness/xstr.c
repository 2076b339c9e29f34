#include <stdlib.h>
#include <stddef.h>
#include <ctype.h>
size_t x_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *x_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *x_strstr(const char *s, const char *t) { for (;; s++) { size_t k = 0; while (t[k] && s[k] == t[k]) k++; if (!t[k]) return (char *)s; if (!*s) return NULL; } }
char *x_strdup(const char *s) { size_t n = x_strlen(s) + 1; char *p = malloc(n); if (p) for (size_t k = 0; k < n; k++) p[k] = s[k]; return p; }
char *x_strsep(char **q, const char *d) { char *p = *q; if (!p) return NULL; for (char *r = p; *r; r++) for (const char *e = d; *e; e++) if (*r == *e) { *r = 0; *q = r + 1; return p; } *q = NULL; return p; }
int x_strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a - *b; }
int x_strcasecmp(const char *a, const char *b) { for (;; a++, b++) { char x = *a, y = *b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x - y; if (!x) return 0; } }
char *x_strncpy(char *d, const char *s, size_t n) { size_t k = 0; for (; k < n && s[k]; k++) d[k] = s[k]; for (; k < n; k++) d[k] = 0; return d; }
static int x_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int x_digit(char c, int base) { int d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return -1; return d < base ? d : -1; }
static long x_num(const char *s, const char **end, int base)
{
    const char *p = s; int neg = 0, n = 0, d; long v = 0;
    while (x_space(*p)) p++;
    if (*p == '+') p++; else if (*p == '-') { neg = 1; p++; }
    if (base == 16 && *p == '0' && (p[1] == 'x' || p[1] == 'X') && x_digit(p[2], 16) >= 0) p += 2;
    while ((d = x_digit(*p, base)) >= 0) { if (v < (1L << 56)) v = v * base + d; p++; n++; }
    *end = n ? p : s;
    return neg ? -v : v;
}
/* text followed by one number: "...%x", "...%u", "...%d" */
int x_scanf(const char *s, const char *f, unsigned *out)
{
    const char *e, *p; int blank = 1;
    while (*f && *f != '%')
    {
        if (!*s) return -1;
        if (*s != *f) return 0;
        s++; f++;
    }
    for (p = s; *p; p++) if (!x_space(*p)) { blank = 0; break; }
    long v = x_num(s, &e, f[1] == 'x' ? 16 : 10);
    if (e == s) return blank ? -1 : 0;
    *out = (unsigned)v;
    return 1;
}
int x_strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return *a - *b; if (!*a) return 0; } return 0; }
int x_strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { char x = *a, y = *b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x - y; if (!x) return 0; } return 0; }
long x_strtol(const char *s, char **end, int base) { const char *e; long v = x_num(s, &e, base); if (end) *end = (char *)e; return v; }
int x_atoi(const char *s) { const char *e; return (int)x_num(s, &e, 10); }
const char *x_ss(const char *s) { return s; }
const char *x_sn(unsigned long n) { (void)n; return ""; }
unsigned long x_ns(const char *s) { (void)s; return 0; }
unsigned long x_nn(unsigned long n) { return n; }
int x_fmt(char *d, size_t n, const char *f, const char *s1, unsigned long n1, const char *s2, unsigned long n2, const char *s3, unsigned long n3)
{
    size_t w = 0; int used = 0;
#define OUT(ch) do { if (w + 1 < n) d[w] = (ch); w++; } while (0)
    for (; *f; f++)
    {
        int lng = 0;
        if (*f != '%') { OUT(*f); continue; }
        f++;
        while (*f == 'z' || *f == 'l') { lng = 1; f++; }
        if (*f == '%') OUT('%');
        else if (*f == 's') { const char *s = used == 0 ? s1 : used == 1 ? s2 : s3; used++; for (; *s; s++) OUT(*s); }
        else
        {
            unsigned base = (*f == 'x') ? 16 : 10;
            unsigned long x = used == 0 ? n1 : used == 1 ? n2 : n3, p = 1; used++;
            if (!lng) x = (*f == 'd') ? (unsigned long)(long)(int)x : (unsigned)x;
            if (*f == 'd' && (long)x < 0) { OUT('-'); x = -x; }
            while (x / p >= base) p *= base;
            for (; p; p /= base) { unsigned g = (x / p) % base; OUT(g < 10 ? '0' + g : 'a' + g - 10); }
        }
    }
    if (n > 0) d[w < n ? w : n - 1] = 0;
    return (int)w;
}
