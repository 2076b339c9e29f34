/* One connection of the HTTP/CoAP proxy between any HTTP client and any CoAP server.
 * Real code: connection.c, data_buf.c.  Everything they call is a model that may give any answer its contract allows. */
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include "v.h"
#include "connection.h"
#include "http_msg.h"
#include "uri.h"
#include "cross.h"
#ifndef REQS
#define REQS 2
#endif
#ifndef READS
#define READS 2
#endif
#ifndef GENMAX
#define GENMAX (1L << 20)
#endif
#ifndef METHOD
#define METHOD 1
#endif
#ifndef HOSTS
#define HOSTS 1
#endif
#ifndef SIMPLE
#define SIMPLE 0
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
static int vg_errno;
int *__errno_location(void) { return &vg_errno; }
void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
char *strerror(int e) { return "error"; }
const char *http_msg_strerror(int e) { return "error"; }
const char *sock_strerror(int e) { return "error"; }
int thread_block_signals(void) { return 0; }
int fflush(void *f) { return 0; }
/* ---- the monitor */
enum { X_NONE, X_CODE, X_RESP, X_REFUSE };
static int vg_reqs, vg_reads, vg_open, vg_excuse, vg_host, vg_port, vg_chost, vg_cport, vg_active, vg_closed;
static int vg_method, vg_ex, vg_exp, vg_status, vg_trans, vg_blk, vg_ph, vg_gen;
static size_t g_body, g_blen, g_genlen, g_count, g_bsize;
static char *g_buf;
static int fault(void) { if (FAULTS && v_choice(2)) { vg_excuse = 1; return 1; } return 0; }
/* ---- the HTTP side */
void tls_sock_get_addr_string_(char *out, size_t n, sock_in_addr_t a) { v_writable(out, n); out[0] = 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    int c = v_choice(3);
    if (c == 1) { vg_excuse = 2; return 0; }
    if (c == 2) { vg_excuse = 1; vg_errno = EIO; return -1; }
    return 1;
}
ssize_t tls_sock_read(tls_sock_t *s, void *buf, size_t len)
{
    v_assert(!vg_closed, "the socket is open while it is used");
    v_assert(!vg_open, "every request is answered before the next one is read");
    v_assert(len > 0, "there is room for more of the request");
    v_writable(buf, len);
    int c = (REQS && vg_reqs >= REQS) || (READS && vg_reads >= READS) ? v_choice(2) : v_choice(3);
    if (c == 0) { v_reach("closed by the client"); vg_excuse = 2; return 0; }
    if (c == 1) { vg_excuse = 1; return SOCK_READ_ERROR; }
    if (READS) vg_reads++;
    ssize_t n = v_long(1, 1L << 20);
    v_assume(n <= len);
    v_havoc(buf, n);
    g_count += n;
    return n;
}
void http_msg_create(http_msg_t *m) { memset(m, 0, sizeof(*m)); }
static void drop(http_msg_t *m) { if (m->start[0]) v_release(m->start[0], 6); m->start[0] = m->start[1] = m->start[2] = 0; }
void http_msg_destroy(http_msg_t *m) { drop(m); memset(m, 0, sizeof(*m)); }
void http_msg_reset(http_msg_t *m) { http_msg_destroy(m); http_msg_create(m); }
static void put(http_msg_t *m) { drop(m); m->start[0] = v_alloc(6, 6); m->start[1] = m->start[0] + 2; m->start[2] = m->start[0] + 4; memset(m->start[0], 0, 6); }
ssize_t http_msg_parse(http_msg_t *m, const char *str, size_t len)
{
    v_assert(len == g_count, "everything received so far is parsed");
    v_readable(str, len);
    int c = v_choice(3);
    if (c == 0) { v_reach("incomplete"); return -EAGAIN; }
    if (c == 1) { vg_excuse = 1; return -EBADMSG; }
    ssize_t n = v_long(1, 1L << 20);
    v_assume(n <= len);
    put(m);
    g_count -= n;
    if (REQS) vg_reqs++;
    vg_open = 1;
    return n;
}
int http_msg_set_start(http_msg_t *m, const char *a, const char *b, const char *c)
{
    v_assert(a && b && c, "the status line is complete");
    if (fault()) return -ENOMEM;
    put(m);
    return 0;
}
const char *cross_http_resp_code_to_str(unsigned code) { vg_status = code; return "x"; }
size_t http_msg_generate(http_msg_t *m, char *str, size_t len)
{
    v_assert(m->start[0] && m->start[1] && m->start[2], "the status line is complete");
    v_writable(str, len);
    if (!vg_gen) { vg_gen = 1; g_genlen = v_long(12, GENMAX); }
    if (g_genlen < len) { v_havoc(str, g_genlen + 1); g_buf = str; }
    else { v_havoc(str, len); g_buf = 0; if (len == 0) g_buf = 0; }
    if (g_genlen >= 32768) vg_excuse = 1;
    return g_genlen;
}
ssize_t tls_sock_write_full(tls_sock_t *s, void *buf, size_t len)
{
    v_assert(!vg_closed, "the socket is open while it is used");
    v_assert(vg_open, "a response is sent only for a request");
    vg_open = 0;
    v_assert(g_buf != NULL, "the complete response is sent");
    v_assert(buf == g_buf && len == g_genlen, "the complete response is sent");
    if (vg_exp == X_RESP) { v_assert(vg_trans == 1 && vg_status == 0, "the answer of the server is sent to the client"); if (!SIMPLE) v_reach("answered"); }
    else if (vg_exp == X_REFUSE) { v_assert(vg_status >= 400 && vg_status < 600, "a request that names no server is refused"); if (!SIMPLE) v_reach("refused"); }
    else { v_assert(vg_exp > 100 && vg_status == vg_exp - 100, "a failure is reported with the status it calls for"); v_reach("failure reported"); }
    int c = v_choice(3);
    if (c == 0) { vg_excuse = 1; return SOCK_WRITE_ERROR; }
    if (c == 1) { vg_excuse = 2; return 0; }
    vg_reads = 0; vg_ex = 0; vg_exp = X_NONE; vg_status = 0; vg_trans = 0; g_body = 0; vg_blk = 0; vg_ph = 0; vg_gen = 0; vg_method = 0; vg_host = 0; vg_port = 0; g_buf = 0; g_blen = 0; g_genlen = 0; g_bsize = 0;
    return len;
}
void tls_sock_close(tls_sock_t *s) { v_assert(!vg_closed, "the socket is closed once"); vg_closed = 1; }
/* ---- translation */
void coap_msg_create(coap_msg_t *m) { memset(m, 0, sizeof(*m)); }
void coap_msg_clear_payload(coap_msg_t *m) { if (m->payload) { v_release(m->payload, 7); m->payload = 0; m->payload_len = 0; } }
void coap_msg_destroy(coap_msg_t *m) { coap_msg_clear_payload(m); memset(m, 0, sizeof(*m)); }
void coap_msg_reset(coap_msg_t *m) { coap_msg_destroy(m); }
static size_t payload(coap_msg_t *m)
{
    coap_msg_clear_payload(m);
    size_t n = v_long(0, 1024);
    m->payload = v_alloc(n, 7); v_havoc(m->payload, n); m->payload_len = n;
    return n;
}
int cross_req_http_to_coap(coap_msg_t *m, char *body, size_t body_len, size_t *body_end, http_msg_t *h, unsigned *code)
{
    v_writable(body, body_len);
    v_assert(*body_end == 0, "no body is left from an earlier request");
    v_assert(h->start[1] != NULL, "the request of the client is translated");
    if (SIMPLE || v_choice(2)) { int c = v_int(400, 599); *code = c; vg_exp = 100 + c; return -EBADMSG; }
    vg_method = METHOD;
    m->code_class = 0; m->code_detail = vg_method;
    g_blen = 0;
    if (v_choice(2)) g_blen = payload(m);
    else { g_blen = v_long(1, 1L << 20); v_assume(g_blen <= body_len); v_havoc(body, g_blen); *body_end = g_blen; }
    *code = 0;
    return 0;
}
void uri_create(uri_t *u) { memset(u, 0, sizeof(*u)); }
void uri_destroy(uri_t *u) { if (u->host) v_release(u->host, 5); if (u->port) v_release(u->port, 5); memset(u, 0, sizeof(*u)); }
static char *name(int c) { char *p = v_alloc(2, 5); p[0] = c; p[1] = 0; return p; }
int uri_parse(uri_t *u, const char *str)
{
    if (fault()) return -ENOMEM;
    int c = v_choice(4);      /* no host, no port, or one of two servers that differ in HOSTS (host) or port */
    vg_host = c == 0 ? 0 : c == 2 && HOSTS ? 2 : 1; vg_port = c == 1 ? 0 : c == 2 && !HOSTS ? 2 : 1;
    u->host = vg_host ? name('a' + vg_host) : NULL;
    u->port = vg_port ? name('0' + vg_port) : NULL;
    if (!vg_host || !vg_port) vg_exp = X_REFUSE;
    return 0;
}
int uri_set_port(uri_t *u, const char *port)
{
    if (u->port) v_release(u->port, 5);
    if (fault()) { u->port = NULL; return -ENOMEM; }
    vg_port = 3; u->port = name('3');
    return 0;
}
/* ---- the CoAP side */
int coap_client_create(coap_client_t *c, const char *host, const char *port, const char *k, const char *ce, const char *t, const char *crl, const char *cn)
{
    v_assert(!vg_active, "one client at a time");
    v_assert(host != NULL && port != NULL, "a client is created for a named server");
    if (v_choice(2)) { vg_excuse = 1; return -ECONNREFUSED; }
    vg_chost = host[0] - 'a'; vg_cport = port[0] - '0';
    vg_active = 1;
    return 0;
}
void coap_client_destroy(coap_client_t *c) { v_assert(vg_active, "only an active client is destroyed"); vg_active = 0; vg_chost = vg_cport = 0; }
static int outcome(void)
{
    int c = v_choice(4);
    if (c == 0) return 0;
    int e = c == 1 ? -ETIMEDOUT : c == 2 ? -EBADMSG : -ECONNRESET;
    vg_exp = 100 + (c == 1 ? 504 : c == 2 ? 502 : 501);
    return e;
}
static void peer(coap_msg_t *req)
{
    v_assert(vg_active && vg_chost == vg_host && vg_cport == vg_port, "the request goes to the server the client named");
    v_assert(req->code_class == 0 && req->code_detail == vg_method, "the request has the method of the client");
    v_assert(vg_exp == X_NONE || vg_exp == X_RESP, "nothing is sent after a failure");
}
int coap_client_exchange(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp)
{
    peer(req);
    v_assert(!vg_ex, "the request is sent once");
    v_assert(vg_method == COAP_MSG_GET || vg_method == COAP_MSG_DELETE || req->payload_len == g_blen, "the request has the body of the client");
    vg_ex = 1;
    int r = outcome();
    if (r < 0) return r;
    coap_msg_clear_payload(resp);
    int k = v_choice(2);
    resp->code_class = k == 0 ? 2 : 4;
    resp->code_detail = k == 0 ? 5 : 13;
    vg_ph = k == 1 && (vg_method == COAP_MSG_PUT || vg_method == COAP_MSG_POST) ? 2 : 0;
    payload(resp);
    vg_blk = vg_method == COAP_MSG_GET ? v_choice(3) : 0;
    if (vg_blk == 2) vg_ph = 1;
    g_body = 0; vg_exp = X_RESP;
    return 0;
}
int coap_msg_parse_block_op(unsigned *num, unsigned *more, unsigned *size, coap_msg_t *m, int type)
{
    v_assert(type == COAP_MSG_BLOCK2, "the response is examined for a Block2 option");
    if (vg_blk == 0) return 1;
    if (vg_blk == 1) { vg_exp = 100 + 502; return -EBADMSG; }
    *num = 0; *more = v_int(0, 1); g_bsize = 64; *size = g_bsize;
    return 0;
}
ssize_t coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp, unsigned b1, unsigned b2, char *body, size_t body_len, int have_resp)
{
    peer(req);
    v_assert(b1 >= 16 && b1 <= 1024 && (b1 & (b1 - 1)) == 0 && b2 >= 16 && b2 <= 1024 && (b2 & (b2 - 1)) == 0, "the block sizes are valid");
    v_writable(body, body_len);
    if (vg_method == COAP_MSG_GET) { v_assert(have_resp == 1 && vg_ph == 1, "a block-wise GET continues the response"); v_assert(b2 == g_bsize, "the block size of the server is used"); v_assert(body_len >= 1024, "there is room for the body"); }
    else
    {
        v_assert(have_resp == 0 && (vg_ex == 0 || vg_ph == 2), "the request is sent once");
        v_assert(vg_method == COAP_MSG_PUT || vg_method == COAP_MSG_POST, "only GET, PUT and POST are block-wise");
        v_assert(body_len == g_blen, "the request has the body of the client");
    }
    vg_ex = 1; vg_ph = 0;
    int r = outcome();
    if (r < 0) return r;
    payload(resp);
    vg_exp = X_RESP;
    ssize_t n = v_long(0, 1L << 20);
    v_assume(n <= body_len);
    v_havoc(body, n);
    g_body = n;
    return n;
}
int cross_resp_coap_to_http(http_msg_t *h, coap_msg_t *m, const char *body, size_t body_len, unsigned *code)
{
    v_assert(vg_ex, "a response is translated only after an exchange");
    v_assert(vg_ph != 2, "a request that is too large is sent again in blocks");
    v_assert(vg_exp == X_RESP, "only a response that was received is translated");
    v_assert(body_len == g_body, "the body of the response is what the server sent");
    v_readable(body, body_len);
    http_msg_reset(h);
    if (v_choice(2)) { *code = 502; vg_exp = 100 + 502; return -EBADMSG; }
    put(h);
    vg_trans = 1; *code = 0;
    return 0;
}
void h_conn(void)
{
    static param_t param;
    static char kf[2] = "k";
    param.coap_client_key_file_name = param.coap_client_cert_file_name = param.coap_client_trust_file_name = kf;
    tls_sock_t *s = v_alloc(sizeof(tls_sock_t), 0);
    memset(s, 0, sizeof(*s));
    s->sd = 5; s->timeout = 60;
    connection_t *con = connection_new(s, 0, 0, &param);
    if (con == NULL) { v_assert(!vg_closed, "the caller keeps the socket"); v_release(s, 0); v_assert_noleak("after a failed creation"); v_stop(); }
    v_reach("created");
    connection_thread_func(con);
    v_assert(vg_closed, "the socket is closed");
    v_assert(!vg_active, "the client is released");
    if (!FAULTS) v_assert(!vg_open || vg_excuse, "every request is answered");
    v_reach("ended");
    v_assert_noleak("after the connection ended");
}
