#include <stdlib.h>
#include <string.h>
#include "v.h"
#include "uri.h"
#ifndef FIELD
#define FIELD 0
#endif
#ifndef MAXLEN
#define MAXLEN 100000
#endif
static char *str(void) { char *s = v_str(MAXLEN); v_assume((int)strlen(s) == v_choice(MAXLEN + 1)); return s; }
static void all_freed(const char *t) { v_assert_noleak(t); }
static void chk(const char *s, const char *t) { if (s != NULL) { v_assert(strlen(s) <= MAXLEN + 1, t); } }
void h_parse(void)
{
    uri_t u;
    uri_create(&u);
    char *s = str();
    if (uri_parse(&u, s) == 0) v_reach("parsed"); else v_reach("refused");
    chk(u.scheme, "scheme is a string"); chk(u.userinfo, "userinfo is a string"); chk(u.host, "host is a string"); chk(u.port, "port is a string");
    chk(u.path, "path is a string"); chk(u.query, "query is a string"); chk(u.fragment, "fragment is a string");
    uri_destroy(&u);
    v_assert(u.scheme == NULL && u.userinfo == NULL && u.host == NULL && u.port == NULL && u.path == NULL && u.query == NULL && u.fragment == NULL, "destroyed uri is empty");
    all_freed("after uri_parse and uri_destroy");
}
static void fill(uri_t *u, int only)
{
    uri_create(u);
    char **f[7] = { &u->scheme, &u->userinfo, &u->host, &u->port, &u->path, &u->query, &u->fragment };
    for (int i = 0; i < 7; i++) if (only < 0 || i == only || (only == 7 && v_choice(2))) { char *s = str(); char *p = malloc(strlen(s) + 1); v_assume(p != NULL); strcpy(p, s); *f[i] = p; }
}
static void same(const char *a, const char *b, const char *t)
{
    v_assert((a == NULL) == (b == NULL), t);
    if (a != NULL && b != NULL) { v_assert(a != b, "the copy has its own memory"); v_assert(strcmp(a, b) == 0, t); }
}
void h_copy(void)
{
    uri_t a, b;
    fill(&a, 7);
    fill(&b, -1);
    int lim = v_live();
    (void)lim;
    if (uri_copy(&b, &a) == 0)
    {
        v_reach("copied");
        same(a.scheme, b.scheme, "scheme is copied"); same(a.userinfo, b.userinfo, "userinfo is copied"); same(a.host, b.host, "host is copied"); same(a.port, b.port, "port is copied");
        same(a.path, b.path, "path is copied"); same(a.query, b.query, "query is copied"); same(a.fragment, b.fragment, "fragment is copied");
    }
#ifdef NOFAIL
    else v_fail("a copy does not fail while there is memory");
#else
    else v_reach("copy failed");
#endif
    uri_destroy(&a); uri_destroy(&b);
    all_freed("after uri_copy and uri_destroy");
}
void h_generate(void)
{
    uri_t u;
    fill(&u, FIELD);
    size_t len = v_choice(3 * MAXLEN + 6);
    char *buf = v_ubuf(len);
    size_t n = uri_generate(&u, buf, len);
    if (len > 0) { v_assert(strlen(buf) < len, "generated uri is terminated"); if (n < len) v_reach("fits"); else v_reach("does not fit"); }
    uri_destroy(&u);
    all_freed("after uri_generate and uri_destroy");
}
void h_set(void)
{
    uri_t u;
    int i = v_choice(7);
    if (v_choice(2)) fill(&u, i); else uri_create(&u);
    char *s = str();
    int r;
    switch (i) { case 0: r = uri_set_scheme(&u, s); break; case 1: r = uri_set_userinfo(&u, s); break; case 2: r = uri_set_host(&u, s); break; case 3: r = uri_set_port(&u, s); break;
        case 4: r = uri_set_path(&u, s); break; case 5: r = uri_set_query(&u, s); break; default: r = uri_set_fragment(&u, s); break; }
    if (r == 0) v_reach("set"); else v_reach("refused");
    chk(u.scheme, "scheme is a string"); chk(u.userinfo, "userinfo is a string"); chk(u.host, "host is a string"); chk(u.port, "port is a string");
    chk(u.path, "path is a string"); chk(u.query, "query is a string"); chk(u.fragment, "fragment is a string");
    uri_destroy(&u);
    all_freed("after setting a component and uri_destroy");
}
/* each component survives generate + parse, whatever character it contains */
static char *lit(const char *s) { char *p = malloc(strlen(s) + 1); v_assume(p != NULL); strcpy(p, s); return p; }
void h_round(void)
{
    uri_t a, b;
    uri_create(&a);
    a.scheme = lit("s"); a.userinfo = lit("u"); a.host = lit("h"); a.port = lit("1"); a.path = lit("/p"); a.query = lit("q"); a.fragment = lit("f");
    char **f[7] = { &a.scheme, &a.userinfo, &a.host, &a.port, &a.path, &a.query, &a.fragment };
    int i = v_choice(7), c = v_int(1, 255);
    char *p = *f[i];
    p[i == 4 ? 1 : 0] = (char)v_split(c);
    char *buf = v_ubuf(64);
    size_t n = uri_generate(&a, buf, 64);
    v_assert(n < 64 && strlen(buf) == n, "length returned is the length of the uri");
    uri_create(&b);
    int r = uri_parse(&b, buf);
    v_assert(r == 0, "a generated uri can be parsed");
    same(a.scheme, b.scheme, "scheme survives"); same(a.userinfo, b.userinfo, "userinfo survives"); same(a.host, b.host, "host survives"); same(a.port, b.port, "port survives");
    same(a.path, b.path, "path survives"); same(a.query, b.query, "query survives"); same(a.fragment, b.fragment, "fragment survives");
    v_reach("round trip");
    uri_destroy(&a); uri_destroy(&b);
    all_freed("round trip");
}
