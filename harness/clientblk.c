/* Block-wise transfers of the client against any server: every request is answered by a matching response with
 * any code, block options and payload. */
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include "pools.h"
#include "mm.h"
#include "coap_client.h"
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef MAXBODY
#define MAXBODY 1048576
#endif
static coap_client_t client;
static int vg_errno;
int *__errno_location(void) { return &vg_errno; }
static int vg_flt, vg_n, vg_pend, vg_over, vg_done, vg_refused, vg_ph, vg_chk;
static int vg_more, vg_off, vg_code, vg_b1sz, vg_b2sz, vg_first;
static unsigned req_id, req_tklen; static char req_tk[8];
static char *body; static long blen, sum, got, sp_off, sp_len, rx_off, rx_len; static const char *rx_pay;
static unsigned cur_cls, cur_det;
void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
char *strerror(int e) { return "error"; }
int mm_fault(void) { if (!FAULTS) return 0; if (v_choice(2)) { vg_flt = 1; return 1; } return 0; }
void mm_rand(char *buf, size_t len) { size_t k; if (len <= 2) v_havoc(buf, len); else for (k = 0; k < len; k++) buf[k] = k; }
void mm_payload(const char *buf, size_t len)
{
    v_assert(v_same_obj(buf, body), "a block is taken from the body");
    sp_off = v_objoff(buf); sp_len = len;
}
void mm_malformed(int type, unsigned id) { v_stop(); }
/* the last block received has to be in the body now */
static void received(void)
{
    if (!vg_chk) return;
    vg_chk = 0;
    v_assert(v_equal(body + rx_off, rx_pay, rx_len), "a received block is stored at its place in the body");
}
void mm_header(coap_msg_t *m) { m->type = COAP_MSG_ACK; m->msg_id = req_id; m->token_len = req_tklen; memcpy(m->token, req_tk, 8); if (v_choice(2)) { m->code_class = 2; m->code_detail = vg_code = v_choice(2) ? 31 : v_choice(2) ? METHOD == 1 ? 5 : 4 : 3; } else { m->code_class = 4; vg_code = 0; } }
static void block2(coap_msg_t *m, mm_body_t *b)
{
    long sz;
    if (vg_p2 != 0) { vg_over = 1; return; }
    sz = vg_p2size < vg_b2sz ? vg_p2size : vg_b2sz;
    if (b->b2more) vg_more = 1; else vg_more = 0;
    if ((long)b->b2num * sz < got) { vg_over = 2; return; }
    if ((long)b->b2num * sz > got) { vg_over = 3; return; }
    if (m->payload_len > sz) { vg_over = 4; return; }
    if (vg_more && m->payload_len < sz) { vg_over = 5; return; }
    if (got + (long)m->payload_len > blen) { vg_over = 6; return; }
    vg_b2sz = sz; rx_off = got; rx_len = m->payload_len; rx_pay = m->payload; if (rx_len > 0) vg_chk = 1; got += rx_len;
    if (!vg_more) vg_done = 1; else vg_off = got;
    v_reach("block received");
}
void mm_parsed(coap_msg_t *m, mm_body_t *b)
{
#ifdef SAFE     /* transfers of any number of blocks: memory only */
    vg_code = vg_p1 = vg_p2 = vg_p1size = vg_p2size = 0; vg_flt = 1; return;
#endif
    cur_cls = m->code_class; cur_det = m->code_detail;
    if (cur_cls != 2) { vg_over = vg_refused = 1; return; }
    if (cur_det == 3) { vg_over = vg_refused = 2; return; }
    if (vg_ph == 1)
    {
        long sz;
        if (vg_p1 != 0) { vg_over = 1; return; }
        sz = vg_p1size < vg_b1sz ? vg_p1size : vg_b1sz;
        if ((long)b->b1num * sz < sum) { vg_over = 2; return; }
        if ((long)b->b1num * sz > sum) { vg_over = 3; return; }
        vg_b1sz = sz; sum += sp_len; sp_len = 0;
        if (sum < blen) { vg_off = sum; return; }
        vg_off = 0;
        v_reach("body sent");
        if (m->payload_len == 0 || blen == 0) { vg_done = 1; return; }
        vg_ph = 2; got = 0;
        block2(m, b);
        return;
    }
    block2(m, b);
}
static void on_send(const char *buf, long len)
{
#ifdef SAFE
    req_id = mm_f_id; req_tklen = mm_f_tklen; memcpy(req_tk, mm_f_token, 8);
    mm_f_buf = 0; mm_f_len = 0; vg_f_type = 0; vg_f_empty = 0; mm_f_cls = mm_f_det = mm_f_id = mm_f_tklen = mm_f_sig = 0; memset(mm_f_token, 0, 8); vg_f_b1 = vg_f_b2 = 0; mm_f_plen = 0;
    return;
#endif
    received();
    v_assert(v_same_obj(buf, mm_f_buf) && v_objoff(buf) == 0 && len == mm_f_len, "exactly the encoded message is sent");
    v_assert(!vg_over && !vg_done, "a transfer stops when it is complete or refused");
    if (vg_over || vg_done) v_stop();
    req_id = mm_f_id; req_tklen = mm_f_tklen; memcpy(req_tk, mm_f_token, 8);
    v_assert(mm_f_det == METHOD && mm_f_cls == 0, "every block is requested with the method of the request");
    if (vg_ph == 1)
    {
        v_assert(vg_f_b1 == 0 && mm_f_b1size == vg_b1sz, "a block of the body carries a Block1 option with the negotiated size");
        v_assert(mm_f_plen == sp_len && (sp_len == 0 || sp_off == sum), "the blocks of the body are sent in sequence without gaps");
        v_assert((long)mm_f_b1num * mm_f_b1size == sum, "the Block1 option names the block sent");
        if (mm_f_b1more) v_assert(sp_len == mm_f_b1size && sum + sp_len < blen, "a block followed by more is full");
        else v_assert(sum + sp_len == blen, "the last block ends the body");
        v_reach("block sent");
    }
    else
    {
        v_assert(vg_f_b2 == 0 && mm_f_b2size == vg_b2sz, "a block is requested with the negotiated size");
        v_assert((long)mm_f_b2num * mm_f_b2size == got && mm_f_b2more == 0, "the blocks of the response are requested in sequence");
        v_reach("block requested");
    }
    mm_f_buf = 0; mm_f_len = 0; vg_f_type = 0; vg_f_empty = 0; mm_f_cls = mm_f_det = mm_f_id = mm_f_tklen = mm_f_sig = 0; memset(mm_f_token, 0, 8); vg_f_b1 = vg_f_b2 = 0; mm_f_plen = 0;
    vg_code = 0; vg_more = 0; vg_p1 = vg_p2 = vg_p1size = vg_p2size = 0; mm_f_b1num = mm_f_b1more = mm_f_b1size = mm_f_b2num = mm_f_b2more = mm_f_b2size = 0;
}
int getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res)
{
    struct addrinfo *a;
    a = v_alloc(sizeof(*a), 5); memset(a, 0, sizeof(*a));
    a->ai_family = AF_INET; a->ai_socktype = SOCK_DGRAM; a->ai_addrlen = sizeof(struct sockaddr_in); a->ai_addr = v_cbuf(sizeof(struct sockaddr_in)); a->ai_next = NULL;
    *res = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) { v_release(a, 5); }
int socket(int d, int t, int p) { return 3; }
int connect(int s, const struct sockaddr *a, socklen_t n) { return 0; }
int fcntl(int s, int cmd, ...) { return 0; }
time_t time(time_t *t) { return v_long(1, 1l << 40); }
void srand(unsigned s) {}
int rand(void) { return v_int(0, RAND_MAX); }
int timerfd_create(int clk, int fl) { return 4; }
int timerfd_settime(int f, int fl, const struct itimerspec *n, struct itimerspec *o) { return 0; }
int close(int f) { return 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
#ifdef EVENTS
    if (vg_n == EVENTS) v_stop();
    vg_n++;
#endif
    vg_pend = 1; FD_ZERO(r); FD_SET(3, r);
    return 1;
}
ssize_t recv(int s, void *buf, size_t len, int flags) { v_assert(vg_pend, "one response per request"); vg_pend = 0; v_havoc(buf, 4); return 4; }
ssize_t send(int s, const void *buf, size_t len, int flags) { on_send(buf, len); return len; }
#ifndef SIZE1
#define SIZE1 (v_choice(2) ? 1024 : 32)
#endif
#ifndef SIZE2
#define SIZE2 (v_choice(2) ? 1024 : 32)
#endif
int harness(void)
{
    coap_msg_t req, resp; ssize_t ret;
    vp_init();
    if (coap_client_create(&client, "h", "p") != 0) { v_fail("creation succeeds"); return 0; }
    coap_msg_create(&req); coap_msg_create(&resp);
    coap_msg_set_type(&req, COAP_MSG_CON); coap_msg_set_code(&req, 0, METHOD);
    req.op_list.first = v_alloc(sizeof(mm_body_t), TAG_MSG); memset(req.op_list.first, 0, sizeof(mm_body_t)); mm_body(&req)->b1 = mm_body(&req)->b2 = 1;
    blen = v_long(0, MAXBODY); body = v_buf(blen);
    vg_b1sz = SIZE1; vg_b2sz = SIZE2; vg_ph = METHOD == 1 ? 2 : 1;
    ret = coap_client_exchange_blockwise(&client, &req, &resp, vg_b1sz, vg_b2sz, body, blen, 0);
    received();
    if (!vg_flt)
    {
        v_assert(vg_over || vg_done, "a transfer ends only when it is complete or refused");
        if (vg_over && !vg_refused) { v_assert(ret < 0, "an unusable response ends the transfer with an error"); v_reach("unusable response"); }
        if (vg_refused) { v_assert(ret == 0, "a refused transfer reports no data"); v_reach("refused"); }
        if (vg_done && !vg_over) { if (vg_ph == 2) v_assert(ret == got, "the length returned is the number of bytes received"); else v_assert(ret == 0, "without a payload there is no data"); v_reach("complete"); }
    }
    coap_msg_destroy(&req); coap_msg_destroy(&resp);
    v_assert_noleak("after a transfer");
    v_reach("transfer over");
    return 0;
}
