/* The client under an arbitrary environment: any datagram, expiry or failure at any time.
 * Partition: a received id equals, is below or is above the id of the request; a received token equals the token
 * of the request, differs from it in one byte, or has another length. */
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <unistd.h>
#include "pools.h"
#include "mm.h"
#include "coap_client.h"
#ifndef FAULTS
#define FAULTS 0
#endif
#define SD 3
#define TFD 4
#ifndef MM_CLASS
#define MM_CLASS 1
#endif
#ifndef MM_TOKENS
#define MM_TOKENS v_choice(3)
#endif
#ifndef REQTYPE
#define REQTYPE v_choice(2)
#endif
#ifndef EXCHANGES
#define EXCHANGES 1
#endif
enum { EV_NONE, EV_DGRAM, EV_TIMER };
static coap_client_t client;
static int vg_errno;
int *__errno_location(void) { return &vg_errno; }
static int vg_flt, vg_sock, vg_timer, vg_armed, vg_ev, vg_pend, vg_down;
static long dg_len;
static unsigned long base_ms;
/* the exchange in progress: phase 0 nothing sent, 1 waiting for the acknowledgement, 2 waiting for the response */
static int vg_ph, vg_rtype, vg_nret, vg_hang;
static unsigned req_id, req_sig, req_det, req_tklen; static char req_tk[8];
/* the datagram or expiry being handled */
static int vg_got, vg_type, vg_empty, vg_idm, vg_tkm, vg_bad, vg_nack, vg_nrst, vg_nre, vg_req; static unsigned cur_id, cur_sig;
enum { E_NONE, E_CONT, E_OK, E_ERR };
static int vg_exp;      /* what has to happen next */
static int vg_ackph;
static const char tok[8] = { 11, 22, 33, 44, 55, 66, 77, 88 };

void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
char *strerror(int e) { return "error"; }
int mm_fault(void) { if (!FAULTS) return 0; if (v_choice(2)) { vg_flt = 1; return 1; } return 0; }
static int sysfail(void) { if (!FAULTS) return 0; if (v_choice(2)) { vg_flt = 1; vg_errno = EIO; return 1; } return 0; }
/* random strings: ids are arbitrary, tokens are pairwise different bytes */
void mm_rand(char *buf, size_t len) { if (len <= 2) v_havoc(buf, len); else { size_t k; for (k = 0; k < len && k < 8; k++) buf[k] = tok[k]; } }

void mm_payload(const char *buf, size_t len) {}
void mm_malformed(int type, unsigned id) { vg_got = 2; vg_type = type; cur_id = id; vg_exp = E_ERR; }
void mm_header(coap_msg_t *m)
{
    if (MM_CLASS || (vg_req = v_choice(2))) { m->code_class = v_int(1, 7); m->code_detail = v_int(0, 31); } else m->code_detail = v_int(1, 31);
    if (v_choice(2)) { m->msg_id = req_id; vg_idm = 1; if (v_choice(2)) { m->code_class = m->code_detail = 0; m->token_len = 0; vg_tkm = 4; return; } } else { m->msg_id = v_int(0, 65535); v_assume(m->msg_id != req_id); vg_idm = 0; }
    memcpy(m->token, req_tk, 8); m->token_len = req_tklen; vg_tkm = MM_TOKENS;
    switch (vg_tkm)
    {
    case 1: break;
    case 0: m->token[req_tklen - 1] = 99; break;
    case 2: m->token_len = req_tklen - 1; break;
    case 3: m->token[0] = 99; break;
    default: m->token_len = 0;
    }
}
void mm_parsed(coap_msg_t *m, mm_body_t *b)
{
    vg_got = 1; vg_type = m->type; vg_empty = vg_bad = 0; if (vg_idm && m->code_class == 0 && m->code_detail == 0) vg_empty = 1; cur_id = m->msg_id; if (vg_tkm == 1 && b->bad != 0) vg_bad = 1; cur_sig = b->sig;
    /* RFC 7252: what this message means for the exchange */
    if (vg_ph == 1 && vg_idm && vg_type == COAP_MSG_ACK && vg_empty) { vg_exp = E_CONT; vg_ackph = 1; vg_nret = 0; base_ms = 0; }
    else if (vg_ph == 1 && vg_idm && vg_type == COAP_MSG_ACK && vg_tkm == 1) vg_exp = vg_bad ? E_ERR : E_OK;
    else if (vg_idm && vg_type == COAP_MSG_RST) vg_exp = E_ERR;
    else if (vg_idm && vg_type == COAP_MSG_ACK && vg_ph == 2 && vg_rtype == COAP_MSG_CON) vg_exp = E_CONT;
    else if (vg_idm) vg_exp = E_ERR;
    else if (vg_tkm == 1 && (vg_type == COAP_MSG_CON || vg_type == COAP_MSG_NON)) vg_exp = vg_bad ? E_ERR : E_OK;
    else if (vg_tkm == 1) vg_exp = E_ERR;
    else vg_exp = E_CONT;
}
static void clear(void)
{
    vg_ev = EV_NONE; vg_pend = 0; dg_len = 0; vg_got = 0; vg_type = 0; vg_empty = 0; vg_idm = 0; vg_tkm = 0; vg_bad = 0; vg_nack = 0; vg_nrst = 0; vg_nre = 0; cur_id = cur_sig = 0; vg_exp = 0; vg_errno = 0; vg_ackph = 0; vg_req = 0;
    mm_f_buf = 0; mm_f_len = 0; vg_f_type = 0; vg_f_empty = 0; mm_f_cls = mm_f_det = mm_f_id = mm_f_tklen = mm_f_sig = 0; memset(mm_f_token, 0, 8); vg_f_b1 = vg_f_b2 = 0; mm_f_plen = 0;
}
static void on_send(const char *buf, long len)
{
    v_assert(v_same_obj(buf, mm_f_buf) && v_objoff(buf) == 0 && len == mm_f_len, "exactly the encoded message is sent");
    if (vg_ph == 0)
    {
        v_assert(vg_f_type == vg_rtype && !vg_f_empty && mm_f_cls == 0, "the request is sent");
        req_id = mm_f_id; req_sig = mm_f_sig; req_det = mm_f_det; req_tklen = mm_f_tklen; memcpy(req_tk, mm_f_token, 8);
        v_assert(req_tklen >= 1 && req_tklen <= 8, "the request carries a token");
        vg_ph = vg_rtype == COAP_MSG_CON ? 1 : 2; vg_nret = 0; vg_armed = 0; base_ms = 0;
        v_reach("request sent");
        return;
    }
    if (vg_ev == EV_TIMER)
    {
        v_assert(vg_ph == 1, "a request is retransmitted only while its acknowledgement is outstanding");
        v_assert(vg_f_type == COAP_MSG_CON && mm_f_cls == 0 && mm_f_det == req_det && mm_f_id == req_id && mm_f_sig == req_sig && mm_f_tklen == req_tklen && v_equal(mm_f_token, req_tk, 8), "a retransmission repeats the request");
        v_assert(vg_nret < 4, "at most four retransmissions");
        vg_nret++; vg_nre++;
        v_assert(vg_nre == 1, "one retransmission per expiry");
        v_reach("retransmission");
        return;
    }
    v_assert(vg_ev == EV_DGRAM && vg_got != 0, "nothing is sent unasked");
    v_assert(vg_f_empty && mm_f_tklen == 0 && (vg_f_type == COAP_MSG_ACK || vg_f_type == COAP_MSG_RST), "an answer to a message is an empty acknowledgement or reset");
    v_assert(vg_type == COAP_MSG_CON && mm_f_id == cur_id, "only a confirmable message is answered, with its id");
    if (vg_f_type == COAP_MSG_RST) { vg_nrst++; v_reach("reset"); }
    else { v_assert(vg_exp == E_OK, "only an accepted response is acknowledged"); vg_nack++; v_reach("acknowledgement"); }
}
static void finish(int how)     /* the message or expiry was handled; how: E_CONT waiting goes on, E_OK / E_ERR the exchange is over */
{
    if (how == E_OK) v_assert(vg_ev == EV_DGRAM && vg_got == 1 && vg_exp == E_OK, "an exchange succeeds only with a response that matches the request");
    if (vg_ev == EV_DGRAM && vg_got && !vg_flt)
    {
        if (vg_exp == E_OK) { v_assert(how == E_OK, "a matching response completes the exchange"); v_reach("response accepted"); }
        if (vg_exp == E_ERR) v_assert(how == E_ERR, "a malformed, reset or unacceptable message ends the exchange with an error");
        if (vg_exp == E_CONT) v_assert(how == E_CONT, "an unrelated message does not end the exchange");
        if (vg_exp == E_OK) v_assert(vg_nack == (vg_type == COAP_MSG_CON) && vg_nrst == 0, "a confirmable response is acknowledged once");
        else v_assert(vg_nack == 0 && vg_nrst == (vg_type == COAP_MSG_CON), "a confirmable message that is not accepted is reset once");
    }
    else if (vg_ev == EV_TIMER && !vg_flt)
    {
        v_assert(how != E_OK, "an expiry does not complete an exchange");
        if (vg_ph == 1 && vg_nre == 1) v_assert(how == E_CONT && vg_armed, "waiting goes on after a retransmission, with the timer running");
        else v_assert(how == E_ERR, "an exchange ends with an error when the time is over");
        if (vg_ph == 1 && vg_nre == 0) v_assert(vg_nret == 4, "an exchange is given up after four retransmissions only");
        if (how == E_ERR) v_reach("timeout");
    }
    if (vg_ackph) vg_ph = 2;
    clear();
}
/* ---- system calls */
int getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res)
{
    struct addrinfo *a;
    v_assert(hints->ai_socktype == SOCK_DGRAM, "datagram addresses are requested");
    if (sysfail()) return EAI_FAIL;
    a = v_alloc(sizeof(*a), 5); memset(a, 0, sizeof(*a));
    a->ai_family = AF_INET; a->ai_socktype = SOCK_DGRAM; a->ai_addrlen = sizeof(struct sockaddr_in); a->ai_addr = v_cbuf(sizeof(struct sockaddr_in)); a->ai_next = NULL;
    *res = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) { v_release(a, 5); }
int socket(int d, int t, int p) { if (sysfail()) return -1; v_assert(!vg_sock, "one socket at a time"); vg_sock = 1; return SD; }
int connect(int s, const struct sockaddr *a, socklen_t n) { v_assert(s == SD && vg_sock, "operation on an open descriptor"); v_readable(a, n); return sysfail() ? -1 : 0; }
int fcntl(int s, int cmd, ...) { v_assert(s == SD && vg_sock, "operation on an open descriptor"); return sysfail() ? -1 : 0; }
time_t time(time_t *t) { return v_long(1, 1l << 40); }
void srand(unsigned s) {}
int rand(void) { return v_int(0, RAND_MAX); }
int timerfd_create(int clk, int fl) { if (sysfail()) return -1; vg_timer = 1; return TFD; }
int timerfd_settime(int f, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    unsigned long ms;
    v_assert(f == TFD && vg_timer, "the timer is open");
    if (sysfail()) return -1;
    v_assert(n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0, "one-shot timers only");
    if (n->it_value.tv_sec == 0 && n->it_value.tv_nsec == 0) { vg_armed = 0; return 0; }
    vg_armed = 1;
    v_assert(n->it_value.tv_nsec >= 0 && n->it_value.tv_nsec < 1000000000, "the timer value is valid");
    ms = n->it_value.tv_sec * 1000 + n->it_value.tv_nsec / 1000000;
    if (vg_ph == 1 && !vg_ackph)
    {
        if (vg_ev == EV_TIMER) v_assert(ms == base_ms << (vg_nret + 1), "the timeout doubles");
        else { v_assert(ms >= 2000 && ms <= 3000, "the first timeout is between ACK_TIMEOUT and ACK_TIMEOUT * ACK_RANDOM_FACTOR"); base_ms = ms; }
    }
    return 0;
}
int close(int f)
{
    v_assert((f == SD && vg_sock) || (f == TFD && vg_timer), "closed once");
    if (f == SD) vg_sock = 0; else { vg_timer = 0; vg_armed = 0; }
    return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    if (vg_ev) finish(E_CONT);
    v_assert(vg_ph != 0, "waiting follows sending");
    if (FAULTS && v_choice(2)) { vg_flt = 1; vg_errno = EIO; return -1; }
    v_assert(FD_ISSET(TFD, r) && FD_ISSET(SD, r) && n > TFD && n > SD, "socket and timer are watched");
    if (!vg_flt) v_assert(vg_armed, "the client never waits without a running timer");
    FD_ZERO(r);
    if (v_choice(2)) { vg_ev = EV_DGRAM; vg_pend = 1; dg_len = v_long(0, COAP_MSG_MAX_BUF_LEN); FD_SET(SD, r); return 1; }
    if (!vg_armed) v_stop();
    vg_ev = EV_TIMER; vg_armed = 0;
    FD_SET(TFD, r);
    return 1;
}
ssize_t recv(int s, void *buf, size_t len, int flags)
{
    long n;
    v_assert(s == SD && vg_sock, "operation on an open descriptor");
    if (FAULTS && v_choice(2)) { vg_flt = 1; vg_errno = EIO; return -1; }
    if (!vg_pend || v_choice(2)) { vg_ev = EV_NONE; vg_errno = EAGAIN; return -1; }
    n = dg_len; if (n > len) n = len;
    v_havoc(buf, n);
    vg_pend = 0;
    return n;
}
ssize_t send(int s, const void *buf, size_t len, int flags)
{
    v_assert(s == SD && vg_sock, "operation on an open descriptor");
    v_readable(buf, len);
    if (sysfail()) return -1;
    on_send(buf, len);
    return len;
}
int harness(void)
{
    coap_msg_t req, resp; int ret, k;
    vp_init();
    if (coap_client_create(&client, "h", "p") != 0) { v_assert(FAULTS, "creation succeeds"); v_assert(!vg_sock && !vg_timer, "a failed creation leaves nothing open"); v_assert_noleak("failed creation"); return 0; }
    vg_flt = 0;
    for (k = 0; k < EXCHANGES; k++)
    {
        coap_msg_create(&req); coap_msg_create(&resp);
        vg_rtype = REQTYPE; coap_msg_set_type(&req, vg_rtype); coap_msg_set_code(&req, 0, v_int(1, 31));
        req.op_list.first = v_alloc(sizeof(mm_body_t), TAG_MSG); memset(req.op_list.first, 0, sizeof(mm_body_t)); mm_body(&req)->sig = v_int(0, 1 << 30); mm_body(&req)->b1 = mm_body(&req)->b2 = 1;
        ret = coap_client_exchange(&client, &req, &resp);
        if (ret == 0 && !vg_flt) v_assert(mm_body(&resp) != 0 && mm_body(&resp)->sig == cur_sig && resp.msg_id == cur_id, "the response handed over is the message received");
        if (vg_ph) finish(ret == 0 ? E_OK : E_ERR); else v_assert(ret < 0, "without a request there is no response");
        v_assert(ret <= 0, "zero or an error");
        vg_ph = 0; vg_flt = 0; vg_nret = 0; base_ms = 0; req_id = req_sig = req_det = req_tklen = 0; memset(req_tk, 0, 8);
        coap_msg_destroy(&req); coap_msg_destroy(&resp);
        v_assert_noleak("after an exchange");
        v_reach("exchange over");
    }
    vg_down = 1;
    coap_client_destroy(&client);
    v_assert(!vg_sock && !vg_timer, "socket and timer are closed");
    return 0;
}
