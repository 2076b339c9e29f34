#include <stdlib.h>
#include "v.h"
#include "config.h"
#include <string.h>
#ifndef PRE
#define PRE ""
#endif
#ifndef N
#define N 4
#endif
static int eq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
/* a configuration text: a fixed beginning followed by any N characters */
void h_parse(void)
{
    size_t pre = sizeof(PRE) - 1, n = pre + v_choice(N + 1);
    char *b = v_buf(n + 1);
    for (size_t k = 0; k < pre; k++) b[k] = PRE[k];
    for (size_t k = pre; k < n; k++) { b[k] = v_int(-128, 127); v_assume(b[k] != 0); }
    b[n] = 0;
    unsigned line = 77, col = 77;
    config_t c;
    config_create(&c);
    int r = config_parse(&c, b, &line, &col);
    v_assert(r == CONFIG_OK || r == CONFIG_ENOMEM || r == CONFIG_ELEXICAL || r == CONFIG_ESYNTAX, "a defined result");
    if (r == CONFIG_OK) { v_reach("accepted"); v_assert(line == 0 && col == 0, "no error position after success"); }
    if (r == CONFIG_ELEXICAL || r == CONFIG_ESYNTAX)
    {
        v_reach("refused");
        unsigned lines = 1;
        for (size_t k = 0; k < n; k++) if (b[k] == '\n') lines++;
        v_assert(line >= 1 && line <= lines, "the error is in a line of the text");
    }
    for (config_section_t *s = c.first; s; s = s->next)
    {
        v_assert(s->name != NULL, "section has a name");
        for (config_entry_t *e = s->first; e; e = e->next) v_assert(e->name != NULL && e->value != NULL, "entry has name and value");
    }
    config_destroy(&c);
    v_assert_noleak("after parsing and destroying a configuration");
}
/* last value written wins, other entries keep theirs */
static char *word(void) { char *p = v_buf(2); p[0] = 'a' + v_choice(2); p[1] = 0; return p; }
void h_set(void)
{
    config_t c;
    config_create(&c);
    char *s[3], *e[3], *x[3]; int ok[3];
    for (int k = 0; k < 3; k++) { s[k] = word(); e[k] = word(); x[k] = v_buf(2); x[k][0] = '0' + k; x[k][1] = 0; ok[k] = config_set(&c, s[k], e[k], x[k]) == CONFIG_OK;
        v_reach("set"); }
    for (int k = 0; k < 3; k++)
    {
        const char *want = NULL;
        for (int j = 0; j < 3; j++) if (ok[j] && eq(s[j], s[k]) && eq(e[j], e[k])) want = x[j];
        const char *got = config_get(&c, s[k], e[k]);
        v_assert((want == NULL) == (got == NULL), "an entry exists if it was set");
        if (want && got) v_assert(eq(want, got), "the last value set is the value read");
    }
    config_destroy(&c);
    v_assert_noleak("after destroying a configuration");
}
/* texts with one assignment are understood */
void h_value(void)
{
    int sec = v_choice(2), kind = v_choice(3), tail = v_choice(4), i = 0;
    char *b = v_buf(64);
    char sn = 'a' + v_int(0, 25), en = 'a' + v_int(0, 25), v1;
    if (kind == 0) { v1 = v_int('a', 'z'); } else if (kind == 1) v1 = v_int('0', '9'); else { v1 = v_int(-128, 127); v_assume(v1 != 0 && v1 != '"' && v1 != '\n' && v1 != '\\'); }
    if (sec) { b[i++] = '['; b[i++] = sn; b[i++] = ']'; b[i++] = '\n'; }
    if (v_choice(2)) b[i++] = ' ';
    b[i++] = en;
    if (v_choice(2)) b[i++] = ' ';
    b[i++] = '=';
    if (v_choice(2)) b[i++] = '\t';
    if (kind == 2) b[i++] = '"';
    b[i++] = v1;
    if (kind == 2) b[i++] = '"';
    if (tail & 1) { b[i++] = ';'; b[i++] = 'c'; }
    if (tail & 2) b[i++] = '\n';
    b[i] = 0;
    config_t c;
    unsigned line, col;
    config_create(&c);
    int r = config_parse(&c, b, &line, &col);
    v_assert(r == CONFIG_OK || r == CONFIG_ENOMEM, "a well-formed text is accepted");
    if (r == CONFIG_OK)
    {
        char sname[2] = { sec ? sn : 0, 0 }, ename[2] = { en, 0 };
        const char *got = config_get(&c, sname, ename);
        v_assert(got != NULL, "the entry is found");
        if (got) v_assert(got[0] == v1 && got[1] == 0, "the value is the one in the text");
        v_reach("value read");
    }
    config_destroy(&c);
    v_assert_noleak("after parsing an assignment");
}
