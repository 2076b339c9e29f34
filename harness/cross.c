#include <stdlib.h>
#include "pools.h"
#include "coap_msg.h"
#include "http_msg.h"
#include "cross.h"
#undef strlen
#undef strcmp
static size_t len_of(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static int eq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static char letter(void) { return v_int('a', 'z'); }
static unsigned xn; static unsigned xnum[12], xlen[12]; static char xval[12][4];
static void expect(unsigned num, const char *s, unsigned n) { if (n == 0) return; xnum[xn] = num; xlen[xn] = n; for (unsigned k = 0; k < n; k++) xval[xn][k] = s[k]; xn++; }
static void options_are(coap_msg_t *m)
{
    unsigned k = 0;
    for (coap_msg_op_t *op = coap_msg_get_first_op(m); op != NULL; op = coap_msg_op_get_next(op), k++)
    {
        v_assert(k < xn, "no option that the request does not call for");
        if (k >= xn) v_stop();
        v_assert(coap_msg_op_get_num(op) == xnum[k], "options in the order of the URI");
        v_assert(coap_msg_op_get_len(op) == xlen[k], "each option is one part of the URI");
        if (coap_msg_op_get_len(op) != xlen[k]) v_stop();
        for (unsigned j = 0; j < xlen[k]; j++) v_assert(coap_msg_op_get_val(op)[j] == xval[k][j], "each option is one part of the URI");
    }
    v_assert(k == xn, "every part of the URI becomes an option");
}
/* a URI built from parts: scheme, host, port, up to three path segments and two query parts, each possibly empty */
static char *uri(void)
{
    char *u = v_buf(64), t[4]; int i = 0, n;
    const char *sch = v_choice(2) ? "coap://" : "coaps://";
    for (; *sch; sch++) u[i++] = *sch;
    t[0] = letter(); u[i++] = t[0]; expect(COAP_MSG_URI_HOST, t, 1);
    if (v_choice(2)) { u[i++] = ':'; t[0] = v_int('0', '9'); u[i++] = t[0]; expect(COAP_MSG_URI_PORT, t, 1); }
    n = v_choice(4);
    for (int k = 0; k < n; k++) { u[i++] = '/'; int l = v_choice(2); if (l) { t[0] = letter(); u[i++] = t[0]; } expect(COAP_MSG_URI_PATH, t, l); }
    n = v_choice(3);
    for (int k = 0; k < n; k++) { u[i++] = k ? '&' : '?'; int l = v_choice(2); if (l) { t[0] = letter(); u[i++] = t[0]; } expect(COAP_MSG_URI_QUERY, t, l); }
    u[i] = 0;
    return u;
}
void h_uri(void)
{
    coap_msg_t m;
    vp_init();
    coap_msg_create(&m);
    char *u = uri();
    int r = cross_uri_http_to_coap(&m, u);
    if (r == 0) { options_are(&m); v_reach("converted"); }
    else { v_assert(r < 0, "failure is an error"); }
    coap_msg_destroy(&m);
    v_assert_noleak("after converting a URI");
}
static char *dup(const char *s) { size_t n = len_of(s) + 1; char *p = malloc(n); v_assume(p != NULL); for (size_t k = 0; k < n; k++) p[k] = s[k]; return p; }
void h_req(void)
{
    static const char *const names[5] = { "GET", "POST", "PUT", "DELETE", "HEAD" };
    coap_msg_t m; http_msg_t h;
    unsigned code = 7; size_t end = 0, blen = v_long(0, 1 << 20);
    vp_init();
    coap_msg_create(&m); http_msg_create(&h);
    int k = v_choice(6), hd = v_choice(6), blk = v_choice(2);
    if (k < 5) h.start[0] = dup(names[k]); else { char *t = v_buf(4); t[0] = letter(); t[1] = letter(); t[2] = letter(); t[3] = 0; h.start[0] = dup(t); }
    h.start[1] = dup("coap://h:1/a");
    h.start[2] = dup("HTTP/1.1");
    char *ev = NULL;
    if (hd > 0)
    {
        http_msg_header_t *x = malloc(sizeof(*x));
        v_assume(x != NULL);
        x->next = NULL;
        if (hd == 1) { x->name = dup("ETag"); ev = malloc(2); v_assume(ev != NULL); ev[0] = letter(); ev[1] = 0; x->value = ev; }
        else if (hd == 2) { char *t = v_buf(11); const char *q = "max-age="; for (int j = 0; j < 8; j++) t[j] = q[j]; t[8] = v_int('0', '9'); t[9] = 0; x->name = dup("Cache-Control"); x->value = dup(t); ev = x->value + 8; }
        else if (hd == 3) { x->name = dup("Accept"); x->value = dup("text/plain"); }
        else if (hd == 4) { x->name = dup("Accept"); x->value = dup("image/png"); }
        else { x->name = dup("Host"); x->value = dup("a"); }
        h.header.first = h.header.last = x;
    }
    size_t n = 0;
    if (v_choice(2)) { n = v_long(1, 1 << 20); h.body = malloc(n + 1); v_assume(h.body != NULL); v_havoc(h.body, n + 1); h.body_len = n; }
    char *body = blk ? v_ubuf(blen) : NULL;
    if (!blk) blen = 0;
    int r = cross_req_http_to_coap(&m, body, blen, &end, &h, &code);
    if (r == 0)
    {
        v_assert(k < 4, "only supported methods are converted");
        v_assert(code == 0, "no error is reported for a converted request");
        v_assert(coap_msg_get_type(&m) == COAP_MSG_CON && coap_msg_get_code_class(&m) == COAP_MSG_REQ, "the request is confirmable");
        v_assert(coap_msg_get_code_detail(&m) == (k == 0 ? COAP_MSG_GET : k == 1 ? COAP_MSG_POST : k == 2 ? COAP_MSG_PUT : COAP_MSG_DELETE), "the method is that of the request");
        v_assert(hd != 4, "only a text response is accepted");
        if (n > COAP_MSG_MAX_PAYLOAD_LEN) { v_assert(end == n && n <= blen, "a large body goes to the transfer buffer"); v_assert(coap_msg_get_payload_len(&m) == 0, "a large body is not a payload"); v_readable(body, n); v_assert(v_is_init(body, n), "the whole body is copied"); v_reach("large body"); }
        else { v_assert(end == 0, "a small body does not use the transfer buffer"); v_assert(coap_msg_get_payload_len(&m) == n, "a small body is the payload"); if (n) v_reach("small body"); }
        unsigned seen = 0;
        for (coap_msg_op_t *op = coap_msg_get_first_op(&m); op != NULL; op = coap_msg_op_get_next(op))
        {
            unsigned num = coap_msg_op_get_num(op);
            seen++;
            if (num == COAP_MSG_ETAG) { v_assert(hd == 1, "an entity tag only if requested"); v_assert(coap_msg_op_get_len(op) == 1 && coap_msg_op_get_val(op)[0] == ev[0], "the entity tag is that of the request"); }
            else if (num == COAP_MSG_MAX_AGE) { v_assert(hd == 2, "an age only if requested"); v_assert(coap_msg_op_get_len(op) == 1 && coap_msg_op_get_val(op)[0] == ev[0], "the age is that of the request"); }
            else if (num == COAP_MSG_ACCEPT) v_assert(hd == 3, "an accepted format only if requested");
            else v_assert(num == COAP_MSG_URI_HOST || num == COAP_MSG_URI_PORT || num == COAP_MSG_URI_PATH, "no other options");
        }
        v_assert(seen == (unsigned)(hd == 1 || hd == 2 || hd == 3 ? 4 : 3), "every header that is understood becomes an option");
    }
    else
    {
        v_assert(r < 0, "failure is an error");
        v_assert(code == 400 || code == 406 || code == 501 || code == 502, "a refused request has an HTTP error code");
        if (k > 4 || k == 4) v_assert(code == 501, "an unknown method is not implemented");
        v_reach("refused");
    }
    http_msg_destroy(&h);
    coap_msg_destroy(&m);
    v_assert_noleak("after converting a request");
}
static const struct { int c, d; const char *s; } map[] = {
    { 2, 1, "200" }, { 2, 2, "200" }, { 2, 3, "304" }, { 2, 4, "200" }, { 2, 5, "200" },
    { 4, 0, "400" }, { 4, 1, "401" }, { 4, 2, "400" }, { 4, 3, "403" }, { 4, 4, "404" }, { 4, 5, "405" }, { 4, 6, "406" }, { 4, 12, "412" }, { 4, 13, "413" }, { 4, 15, "415" },
    { 5, 0, "500" }, { 5, 1, "501" }, { 5, 2, "502" }, { 5, 3, "503" }, { 5, 4, "504" }, { 5, 5, "501" } };
void h_resp(void)
{
    coap_msg_t m; http_msg_t h;
    unsigned code = 7;
    vp_init();
    coap_msg_create(&m); http_msg_create(&h);
    int c = v_choice(8), d = v_choice(32);
    const char *want = NULL;
    for (unsigned k = 0; k < sizeof(map) / sizeof(map[0]); k++) if (map[k].c == c && map[k].d == d) want = map[k].s;
    if (coap_msg_set_code(&m, c, d) != 0) v_stop();
    int r = cross_resp_coap_to_http(&h, &m, NULL, 0, &code);
    if (r == 0) { v_assert(want != NULL && code == 0, "only known responses are converted"); if (want) v_assert(eq(h.start[1], want), "the status is the one of the response"); v_assert(h.body_len == 0, "no body"); v_reach("converted"); }
    else { v_assert(r < 0 && code == 502, "a refused response is a bad gateway"); v_reach("refused"); }
    http_msg_destroy(&h);
    coap_msg_destroy(&m);
    v_assert_noleak("after converting a response");
}
void h_respbody(void)
{
    coap_msg_t m; http_msg_t h;
    unsigned code = 7;
    char val[2];
    vp_init();
    coap_msg_create(&m); http_msg_create(&h);
    coap_msg_set_code(&m, 2, 5);
    size_t n = 0, bl = v_choice(3), el = 0;
    char *b = v_buf(bl), *p = NULL; const char *e = NULL;
    int op = v_choice(5);
    if (v_choice(2)) { n = 1 + v_choice(12); p = v_buf(n); for (size_t k = 0; k < n; k++) p[k] = v_int(-128, 127); if (coap_msg_set_payload(&m, p, n) != 0) v_stop(); }
    val[0] = v_int('1', '9'); val[1] = letter();
    if (op == 1) { if (coap_msg_add_op(&m, COAP_MSG_ETAG, 2, val) != 0) v_stop(); }
    else if (op == 2) { if (coap_msg_add_op(&m, COAP_MSG_MAX_AGE, 1, val) != 0) v_stop(); }
    else if (op == 3) { if (coap_msg_add_op(&m, COAP_MSG_ACCEPT, 1, "0") != 0) v_stop(); }
    else if (op == 4) { unsigned ln = v_int(0, 600); char *x = v_cbuf(ln); if (coap_msg_add_op(&m, 65000, ln, x) != 0) v_stop(); }
    for (size_t k = 0; k < bl; k++) b[k] = v_int(-128, 127);
    int r = cross_resp_coap_to_http(&h, &m, b, bl, &code);
    if (r == 0)
    {
        e = bl ? b : p; el = bl ? bl : n;
        v_assert(code == 0 && h.body_len == el, "the body is that of the response");
        if (h.body_len == el) for (size_t k = 0; k < el; k++) v_assert(h.body[k] == e[k], "the body is that of the response");
        unsigned cl = 0, other = 0;
        for (http_msg_header_t *x = h.header.first; x != NULL; x = x->next)
        {
            if (eq(x->name, "Content-Length"))
            {
                cl++;
                v_assert(el < 10 ? x->value[0] == (char)('0' + el) && x->value[1] == 0 : x->value[0] == '1' && x->value[1] == (char)('0' + el - 10) && x->value[2] == 0, "the length is that of the body");
            }
            else
            {
                other++;
                if (op == 1) v_assert(eq(x->name, "Etag") && x->value[0] == val[0] && x->value[1] == val[1] && x->value[2] == 0, "the entity tag is that of the response");
                else if (op == 2) v_assert(eq(x->name, "Cache-Control") && x->value[8] == val[0] && x->value[9] == 0, "the age is that of the response");
                else v_assert(op == 3 && eq(x->name, "Accept"), "no other headers");
            }
        }
        v_assert(cl == (el ? 1u : 0u), "a body has a length");
        v_assert(other == (op >= 1 && op <= 3 ? 1u : 0u), "every option that is understood becomes a header");
        v_reach("converted");
    }
    else { v_assert(r < 0 && code == 502, "a refused response is a bad gateway"); v_reach("refused"); }
    http_msg_destroy(&h);
    coap_msg_destroy(&m);
    v_assert_noleak("after converting a response");
}
/* options to URI: the text is exactly the parts, whatever fits */
void h_back(void)
{
    coap_msg_t m;
    vp_init();
    coap_msg_create(&m);
    char want[48], t[1]; size_t w = 0;
    const char *q = "coaps://";
    for (; *q; q++) want[w++] = *q;
    t[0] = letter(); want[w++] = t[0]; if (coap_msg_add_op(&m, COAP_MSG_URI_HOST, 1, t) != 0) v_stop();
    if (v_choice(2)) { t[0] = v_int('0', '9'); want[w++] = ':'; want[w++] = t[0]; if (coap_msg_add_op(&m, COAP_MSG_URI_PORT, 1, t) != 0) v_stop(); }
    int n = v_choice(3);
    if (n == 0) want[w++] = '/';
    for (int k = 0; k < n; k++) { t[0] = letter(); want[w++] = '/'; want[w++] = t[0]; if (coap_msg_add_op(&m, COAP_MSG_URI_PATH, 1, t) != 0) v_stop(); }
    n = v_choice(3);
    for (int k = 0; k < n; k++) { t[0] = letter(); want[w++] = k ? '&' : '?'; want[w++] = t[0]; if (coap_msg_add_op(&m, COAP_MSG_URI_QUERY, 1, t) != 0) v_stop(); }
    size_t cap = v_choice(4);
    cap = cap == 0 ? 0 : cap == 1 ? 1 : cap == 2 ? w : w + 1;
    char *out = v_ubuf(cap);
    int r = cross_uri_coap_to_http(out, cap, &m);
    v_assert((r == 0) == (cap > w), "success if and only if the text fits");
    if (r == 0 && cap > w) { for (size_t k = 0; k < w; k++) v_assert(out[k] == want[k], "the URI is made of the options"); v_assert(out[w] == 0, "the URI is terminated"); v_reach("converted"); } else v_reach("refused");
    coap_msg_destroy(&m);
    v_assert_noleak("after converting options");
}
#ifdef STUB_URI
/* options of any length and content: the temporary buffer is never exceeded and always holds a text */
#include "uri.h"
static int set(const char *s) { v_readable(s, 1); v_reach("text set"); return v_choice(2) ? -12 : 0; }
void uri_create(uri_t *u) { (void)u; }
void uri_destroy(uri_t *u) { (void)u; }
int uri_parse(uri_t *u, const char *s) { (void)u; (void)s; return -1; }
int uri_set_scheme(uri_t *u, const char *s) { (void)u; return set(s); }
int uri_set_host(uri_t *u, const char *s) { (void)u; return set(s); }
int uri_set_port(uri_t *u, const char *s) { (void)u; return set(s); }
int uri_set_path(uri_t *u, const char *s) { (void)u; return set(s); }
int uri_set_query(uri_t *u, const char *s) { (void)u; return set(s); }
size_t uri_generate(uri_t *u, char *b, size_t n) { (void)u; v_writable(b, n); return v_long(0, 1 << 20); }
void h_long(void)
{
    static const unsigned nums[4] = { COAP_MSG_URI_HOST, COAP_MSG_URI_PORT, COAP_MSG_URI_PATH, COAP_MSG_URI_QUERY };
    coap_msg_t m;
    vp_init();
    coap_msg_create(&m);
    unsigned k = nums[v_choice(4)], l1 = v_int(0, 600), l2 = v_int(0, 600), l3 = v_int(0, 600);
    char *a = v_cbuf(l1), *b = v_cbuf(l2), *c = v_cbuf(l3);
    if (coap_msg_add_op(&m, k, l1, a) != 0 || coap_msg_add_op(&m, k, l2, b) != 0 || coap_msg_add_op(&m, k, l3, c) != 0) v_stop();
    size_t cap = v_long(0, 1000);
    char *out = v_ubuf(cap);
    if (cross_uri_coap_to_http(out, cap, &m) == 0) v_reach("converted"); else v_reach("refused");
    coap_msg_destroy(&m);
    v_assert_noleak("after converting options");
}
void h_headers(void)
{
    static const unsigned nums[4] = { COAP_MSG_ETAG, COAP_MSG_MAX_AGE, COAP_MSG_ACCEPT, 65000 };
    coap_msg_t m; http_msg_t h;
    unsigned code = 7;
    vp_init();
    coap_msg_create(&m); http_msg_create(&h);
    coap_msg_set_code(&m, 2, 5);
    unsigned l1 = v_int(0, 600), l2 = v_int(0, 600);
    char *a = v_cbuf(l1), *b = v_cbuf(l2);
    if (coap_msg_add_op(&m, nums[v_choice(4)], l1, a) != 0 || coap_msg_add_op(&m, nums[v_choice(4)], l2, b) != 0) v_stop();
    size_t n = v_int(0, 1024);
    if (n > 0) { char *p = v_cbuf(n); if (coap_msg_set_payload(&m, p, n) != 0) v_stop(); }
    size_t bl = v_long(0, 1 << 20);
    char *body = v_cbuf(bl);
    if (cross_resp_coap_to_http(&h, &m, body, bl, &code) == 0) { v_assert(h.body_len == (bl ? bl : n), "the body is that of the response"); v_readable(h.body, h.body_len); v_reach("converted"); } else { v_assert(code == 502, "a refused response is a bad gateway"); v_reach("refused"); }
    http_msg_destroy(&h);
    coap_msg_destroy(&m);
    v_assert_noleak("after converting a response");
}
#endif
