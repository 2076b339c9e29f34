/* byte-by-byte string functions: exact on short buffers */
#include <stdlib.h>
#include <string.h>
size_t x_strlen(const char *s); char *x_strchr(const char *s, int c); char *x_strstr(const char *s, const char *t); char *x_strdup(const char *s); char *x_strsep(char **q, const char *d);
int x_strcmp(const char *a, const char *b); int x_strcasecmp(const char *a, const char *b); char *x_strncpy(char *d, const char *s, size_t n);
#define strlen x_strlen
#define strchr x_strchr
#define strstr x_strstr
#define strdup x_strdup
#define strsep x_strsep
#define strncpy x_strncpy
int x_strncasecmp(const char *a, const char *b, size_t n); int x_strncmp(const char *a, const char *b, size_t n);
#define strncasecmp x_strncasecmp
#define strncmp x_strncmp
#ifndef XCMP
#define strcmp x_strcmp
#define strcasecmp x_strcasecmp
#endif
#include <stdio.h>
int x_scanf(const char *s, const char *f, unsigned *out); long x_strtol(const char *s, char **end, int base); int x_atoi(const char *s);
#define sscanf(s, f, o) x_scanf((s), (f), (unsigned *)(o))
#define strtol(s, e, b) x_strtol(s, e, b)
#define strtoul(s, e, b) ((unsigned long)x_strtol(s, e, b))
#define atoi(s) x_atoi(s)
const char *x_ss(const char *s); const char *x_sn(unsigned long n); unsigned long x_ns(const char *s); unsigned long x_nn(unsigned long n);
int x_fmt(char *d, size_t n, const char *f, const char *s1, unsigned long n1, const char *s2, unsigned long n2, const char *s3, unsigned long n3);
#define X_S(v) _Generic((v), char *: x_ss, const char *: x_ss, default: x_sn)(v)
#define X_N(v) _Generic((v), char *: x_ns, const char *: x_ns, default: x_nn)(v)
#define X_4(d, n, f, a, b, c, ...) x_fmt(d, n, f, X_S(a), X_N(a), X_S(b), X_N(b), X_S(c), X_N(c))
#define snprintf(...) X_4(__VA_ARGS__, 0, 0, 0, 0)
