#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include "v.h"
#include "http_msg.h"
#undef strlen
#undef strcmp
#include <string.h>
#ifndef NOPARSED
#define NOPARSED 0
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef N
#define N 6
#endif
/* a received text: a fixed beginning followed by any N bytes */
void h_parse(void)
{
    size_t pre = sizeof(PRE) - 1, n = pre + v_choice(N + 1);
    char *b = v_buf(n);
    for (size_t k = 0; k < pre && k < n; k++) b[k] = PRE[k];
    http_msg_t m;
    http_msg_create(&m);
    ssize_t r = http_msg_parse(&m, b, n);
    v_assert(r <= (ssize_t)n, "no more is consumed than was received");
    v_assert(r != 0, "a message is never empty");
    if (r > 0)
    {
        if (!NOPARSED) v_reach("parsed");
        v_assert(m.start[0] && m.start[1] && m.start[2], "start line is complete");
        if (m.body) { v_readable(m.body, m.body_len + 1); v_assert(m.body[m.body_len] == 0, "body is terminated"); v_assert(m.body_len <= n, "body is part of the text"); }
        else v_assert(m.body_len == 0, "no body, no length");
        for (http_msg_header_t *h = m.header.first; h != NULL; h = h->next) { v_assert(h->name != NULL && h->value != NULL, "header has name and value"); if (h->next == NULL) v_assert(h == m.header.last, "last header"); }
    }
    else v_reach("refused");
    if (v_choice(2)) http_msg_reset(&m);
    http_msg_destroy(&m);
    v_assert_noleak("after parsing and destroying a message");
}
/* ---- messages that are built: at most NB symbolic bytes per part */
#ifndef NB
#define NB 2
#endif
static char *txt(int min, int max)
{
    int n = min + v_choice(max - min + 1);
    char *p = v_buf(n + 1);
    for (int k = 0; k < n; k++) { p[k] = v_int(-128, 127); v_assume(p[k] != 0); }
    p[n] = 0;
    return p;
}
static size_t put(char *d, size_t at, const char *s, size_t n) { for (size_t k = 0; k < n; k++) d[at + k] = s[k]; return at + n; }
static size_t len_of(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static void check(const char *out, size_t cap, const char *want, size_t n, size_t r)
{
    if (cap > 0) v_assert(r == n, "the length is that of the whole text");
    for (size_t k = 0; k < n && k + 1 < cap; k++) v_assert(out[k] == want[k], "the text is the message");
    if (cap > 0) v_assert(out[n < cap ? n : cap - 1] == 0, "the text is terminated inside the buffer");
    if (n < cap) v_reach("fits"); else v_reach("does not fit");
}
void h_generate(void)
{
    http_msg_t m;
    char want[64]; size_t w = 0;
    http_msg_create(&m);
    char *s0 = txt(1, 1), *s1 = txt(1, NB), *s2 = txt(1, 1);
    if (http_msg_set_start(&m, s0, s1, s2) != 0) { http_msg_destroy(&m); v_assert_noleak("after a failed start line"); v_stop(); }
    w = put(want, w, s0, len_of(s0)); w = put(want, w, " ", 1); w = put(want, w, s1, len_of(s1)); w = put(want, w, " ", 1); w = put(want, w, s2, len_of(s2)); w = put(want, w, "\r\n", 2);
    int nh = v_choice(3);
    for (int k = 0; k < nh; k++)
    {
        char *a = txt(1, 1), *b = txt(0, 1);
        if (http_msg_set_header(&m, a, b) != 0) { http_msg_destroy(&m); v_assert_noleak("after a failed header"); v_stop(); }
        w = put(want, w, a, len_of(a)); w = put(want, w, ": ", 2); w = put(want, w, b, len_of(b)); w = put(want, w, "\r\n", 2);
    }
    w = put(want, w, "\r\n", 2);
    if (v_choice(2))
    {
        size_t n = v_choice(3);
        char *b = v_buf(n);
        w = put(want, w, b, n);
        if (http_msg_set_body(&m, b, n) != 0) { http_msg_destroy(&m); v_assert_noleak("after a failed body"); v_stop(); }
        v_assert(m.body_len == n && m.body[n] == 0, "the body is stored and terminated");
    }
    size_t cap = v_choice(6);
    cap = cap == 0 ? 0 : cap == 1 ? 1 : cap == 2 ? w - 1 : cap == 3 ? w : cap == 4 ? w + 1 : w + 3;
    char *out = v_buf(cap);
    check(out, cap, want, w, http_msg_generate(&m, out, cap));
    http_msg_destroy(&m);
    v_assert_noleak("after generating a message");
}
void h_chunk(void)
{
    char want[64]; size_t w = 0;
    int kind = v_choice(4);
    size_t cap = 0, r = 0;
    char *a = txt(1, NB), *b = txt(0, NB), *in = NULL; size_t n = 0;
    if (kind == 0) { n = v_choice(4); in = v_buf(n); want[w++] = '0' + n; w = put(want, w, "\r\n", 2); w = put(want, w, in, n); w = put(want, w, "\r\n", 2); }
    else if (kind == 1) { w = put(want, w, "0\r\n", 3); }
    else if (kind == 2) { w = put(want, w, a, len_of(a)); w = put(want, w, ": ", 2); w = put(want, w, b, len_of(b)); w = put(want, w, "\r\n", 2); }
    else w = put(want, w, "\r\n", 2);
    cap = v_choice(12);
    char *out = v_buf(cap);
    if (kind == 0) r = http_msg_generate_chunk(out, cap, in, n);
    else if (kind == 1) r = http_msg_generate_last_chunk(out, cap);
    else if (kind == 2) r = http_msg_generate_trailer(out, cap, a, b);
    else r = http_msg_generate_blank_line(out, cap);
    v_assert(r == w, "the length is that of the whole text");
    for (size_t k = 0; k < w && w < cap; k++) v_assert(out[k] == want[k], "the text is the message");
    if (w < cap) { v_assert(out[w] == 0, "the text is terminated inside the buffer"); v_reach("fits"); } else v_reach("does not fit");
}
void h_again(void)
{
    http_msg_t m;
    http_msg_create(&m);
    for (int k = 0; k < 3; k++)
    {
        int op = v_choice(4);
        if (op == 0) http_msg_set_start(&m, "a", "b", "c");
        else if (op == 1) http_msg_set_header(&m, "n", "v");
        else if (op == 2) { char *b = v_buf(2); http_msg_set_body(&m, b, 2); if (m.body) v_readable(m.body, m.body_len + 1); else v_assert(m.body_len == 0, "no body, no length"); }
        else http_msg_reset(&m);
    }
    v_reach("three operations");
    http_msg_destroy(&m);
    v_assert_noleak("after any three operations on a message");
}
/* ---- well-formed messages: parsed to exactly their parts; cut short, they ask for more */
static char vis(void) { char c = v_int(33, 126); v_assume(c != ':'); return c; }
static int is(const char *s, char c) { return s != NULL && s[0] == c && s[1] == 0; }
void h_valid(void)
{
    char t[160]; size_t w = 0, bl = 0;
    char s[3], hn[2], hv[2], body[4];
#ifndef KIND
#define KIND 0
#endif
#ifdef CUT
#define OPT(n) 1
#else
#define OPT(n) v_choice(n)
#endif
    int kind = KIND, nh = kind == 0 ? v_choice(3) : kind == 1 ? OPT(2) : 0, trailer = 0, extra = v_choice(2), nc = 0;
    for (int k = 0; k < 3; k++) { s[k] = vis(); t[w++] = s[k]; if (k < 2) t[w++] = ' '; }
    w = put(t, w, "\r\n", 2);
    for (int k = 0; k < nh; k++)
    {
        hn[k] = v_int('a', 'b'); hv[k] = vis();
        t[w++] = hn[k]; t[w++] = ':';
        if (OPT(2)) t[w++] = ' ';
        t[w++] = hv[k];
        if (k == 0 && OPT(2)) t[w++] = ' ';
        w = put(t, w, "\r\n", 2);
    }
    if (kind == 1) { bl = 1 + OPT(2); w = put(t, w, "Content-Length: ", 16); t[w++] = '0' + bl; w = put(t, w, "\r\n", 2); }
    if (kind >= 2) w = put(t, w, "Transfer-Encoding: chunked\r\n", 28);
    w = put(t, w, "\r\n", 2);
    for (int k = 0; k < 4; k++) { body[k] = v_int(-128, 127); v_assume(body[k] != 0); }
    if (kind == 1) w = put(t, w, body, bl);
    if (kind >= 2)
    {
        nc = kind - 1;
        for (int c = 0; c < nc; c++)
        {
            int n = 1 + (c == 0 ? OPT(2) : 0);
            if (c == 0 && OPT(2)) t[w++] = '0';
            t[w++] = '0' + n;
            if (c == nc - 1 && OPT(2)) w = put(t, w, ";a", 2);
            w = put(t, w, "\r\n", 2);
            w = put(t, w, body + bl, n); bl += n;
            w = put(t, w, "\r\n", 2);
        }
        w = put(t, w, "0\r\n", 3);
        trailer = OPT(2);
        if (trailer) w = put(t, w, "x:y\r\n", 5);
        w = put(t, w, "\r\n", 2);
    }
    size_t n = w;
#ifdef CUT
    n = w - 1 - v_choice(CUT);
    extra = 0;
#endif
    char *b = v_buf(n + extra);
    put(b, 0, t, n);
    if (extra) b[n] = 'Z';
    http_msg_t m;
    http_msg_create(&m);
    ssize_t r = http_msg_parse(&m, b, n + extra);
#ifdef CUT
    v_assert(r == -EAGAIN || r == -ENOMEM, "an incomplete message asks for more");
    v_reach("cut short");
#else
    if (r == -ENOMEM) { http_msg_destroy(&m); v_assert_noleak("after parsing without memory"); v_stop(); }
    v_assert(r == (ssize_t)w, "a well-formed message is consumed exactly");
    if (r != (ssize_t)w) v_stop();
    v_assert(is(m.start[0], s[0]) && is(m.start[1], s[1]) && is(m.start[2], s[2]), "the start line is that of the message");
    http_msg_header_t *h = m.header.first;
    for (int k = 0; k < nh; k++) { v_assert(h != NULL, "every header is found"); if (h == NULL) v_stop(); v_assert(is(h->name, hn[k]) && is(h->value, hv[k]), "name and value are those of the header"); h = h->next; }
    if (kind > 0) { v_assert(h != NULL, "every header is found"); if (h == NULL) v_stop(); h = h->next; }
    if (trailer) { v_assert(h != NULL, "every header is found"); if (h == NULL) v_stop(); v_assert(is(h->name, 'x') && is(h->value, 'y'), "the trailer is a header"); h = h->next; }
    v_assert(h == NULL, "nothing else is a header");
    v_assert(m.body_len == bl && (bl == 0 || m.body != NULL), "the body has its length");
    if (m.body_len == bl && m.body) for (size_t k = 0; k < bl; k++) v_assert(m.body[k] == body[k], "the body is that of the message");
    v_reach("parsed");
#endif
    http_msg_destroy(&m);
    v_assert_noleak("after parsing a message");
}
