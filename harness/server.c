/* The server under an arbitrary environment: datagrams, timer expiries and failures in any order, for ever.
 * The monitor keeps, per client, what the protocol says the server has to remember. */
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <string.h>
#include <stdio.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <arpa/inet.h>
#include <unistd.h>
#include "pools.h"
#include "mm.h"
#include "coap_server.h"
#include "coap_mem.h"
#ifndef CLIENTS
#define CLIENTS 1
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#define SD 3
#define NFD 16
enum { EV_NONE, EV_DGRAM, EV_TIMER };
static coap_server_t server;
static int vg_errno;
int *__errno_location(void) { return &vg_errno; }
/* environment */
static int vg_n, vg_ev, vg_cl, vg_pend, vg_flt, vg_down, vg_sock;
static long dg_len;
static int vg_fdcl[NFD];               /* timer descriptor: 1 + client */
static int vg_fd[CLIENTS], vg_armed[CLIENTS];
static unsigned long prev_ms[CLIENTS];
/* what the server has to remember about a client */
static int vg_rec[CLIENTS], vg_rt[CLIENTS], vg_rsep[CLIENTS], vg_wait[CLIENTS], vg_nret[CLIENTS];
static unsigned rec_id[CLIENTS], resp_id[CLIENTS], resp_sig[CLIENTS], resp_cls[CLIENTS], resp_det[CLIENTS]; static int vg_resp_type[CLIENTS];
/* current exchange */
static int vg_type, vg_kind, cur_sep; static unsigned cur_cls, cur_det;
static int vg_got, vg_dup, vg_h, vg_nack, vg_nresp, vg_nrst, vg_closed;
static unsigned cur_id, cur_tklen, cur_bad; static char cur_token[8];
static unsigned new_id, new_sig, new_cls, new_det; static int vg_new_type;

/* block-wise transfers */
#define BSZ 64
static coap_server_trans_t *tr; static int vg_m2, vg_off, vg_e1, vg_e2, vg_bk, vg_bk0, vg_rx; static int cur_b1; static long bsum, bend, boff, b1esz, cur_pl; static unsigned cur_b1num, cur_b1more, cur_b1size; static const char *cur_pay;
void mm_payload(const char *buf, size_t len)
{
#ifdef MM_BLOCK
    v_assert(v_same_obj(buf, coap_server_trans_get_body(tr)), "a block is taken from the body of the transfer");
    v_assert(v_objoff(buf) == (vg_bk == 3 ? bsum : 0), "blocks of the body are sent in sequence");
#endif
}
void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
char *strerror(int e) { return "error"; }

int mm_fault(void) { if (!FAULTS) return 0; if (v_choice(2)) { vg_flt = 1; return 1; } return 0; }
static int sysfail(void) { if (!FAULTS) return 0; if (v_choice(2)) { vg_flt = 1; vg_errno = EIO; return 1; } return 0; }

void mm_malformed(int type, unsigned id) { vg_got = 2; vg_type = type; cur_id = id; }
void mm_parsed(coap_msg_t *m, mm_body_t *b)
{
    boff = vg_bk == 2 ? bsum : 0;
    vg_got = 1; vg_type = m->type; vg_kind = m->code_class != 0 ? 2 : m->code_detail != 0; cur_id = m->msg_id; cur_tklen = m->token_len; memcpy(cur_token, m->token, 8);
    cur_cls = m->code_class; cur_det = m->code_detail;
    cur_sep = b->path;
#ifdef MM_BLOCK
    cur_sep = 0;
#endif
    cur_bad = b->bad;
    vg_dup = 0; vg_bk0 = vg_bk; cur_b1 = b->b1; cur_b1num = b->b1num; cur_b1more = b->b1more; cur_b1size = b->b1size; cur_pay = m->payload; cur_pl = m->payload_len; vg_rx = 0;
    if (vg_bk == 0) vg_m2 = 0;
    if (vg_p2 == 0 && vg_p2size && (vg_m2 == 0 || vg_p2size < vg_m2)) vg_m2 = vg_p2size;
    if (vg_rec[vg_cl] && (vg_type == COAP_MSG_CON || vg_type == COAP_MSG_NON) && cur_id == rec_id[vg_cl]) vg_dup = 1;
}
static void on_send(int c, const char *buf, long len)
{
    v_assert(v_same_obj(buf, mm_f_buf) && v_objoff(buf) == 0 && len == mm_f_len, "exactly the encoded message is sent");
    v_assert(c == vg_cl, "a message goes to the client of the current exchange");
    if (vg_ev == EV_TIMER)
    {
        v_assert(vg_wait[c], "only an unacknowledged confirmable response is retransmitted");
        v_assert(vg_f_type == COAP_MSG_CON, "only confirmable responses are retransmitted");
        v_assert(mm_f_id == resp_id[c] && mm_f_sig == resp_sig[c] && mm_f_cls == resp_cls[c] && mm_f_det == resp_det[c], "a retransmission repeats the recorded response");
        v_assert(vg_nret[c] < 4, "at most four retransmissions");
        vg_nret[c]++;
        v_reach("retransmission");
        return;
    }
    if (vg_f_type == COAP_MSG_RST)
    {
        v_assert(vg_f_empty && mm_f_tklen == 0, "a reset is an empty message");
        v_assert(vg_got != 0 && vg_type == COAP_MSG_CON && mm_f_id == cur_id, "a reset answers the confirmable message with its id");
        vg_nrst++;
        v_reach("reset");
        return;
    }
    if (vg_f_empty)
    {
        v_assert(vg_f_type == COAP_MSG_ACK, "an empty message is an acknowledgement or a reset");
        v_assert(vg_got == 1 && vg_type == COAP_MSG_CON && mm_f_id == cur_id, "an acknowledgement carries the id of the confirmable request");
        vg_nack++;
        v_reach("empty acknowledgement");
        return;
    }
    v_assert(vg_got == 1 && (vg_kind == 1 || vg_dup), "a response is sent for a request only");
    if (vg_dup)
    {
        if (vg_rt[c] == vg_type && vg_kind == 1)
        {
            v_assert(vg_f_type == vg_resp_type[c] && mm_f_id == resp_id[c] && mm_f_sig == resp_sig[c] && mm_f_cls == resp_cls[c] && mm_f_det == resp_det[c], "a duplicate is answered by the recorded response");
            v_reach("duplicate answered again");
        }
        vg_nresp++;
        return;
    }
    v_assert(mm_f_tklen == cur_tklen, "the response carries the token of the request");
    v_assert(v_equal(mm_f_token, cur_token, 8), "the response carries the token of the request");
    if (vg_type == COAP_MSG_NON) v_assert(vg_f_type == COAP_MSG_NON, "a non-confirmable request gets a non-confirmable response");
    else if (cur_sep) v_assert(vg_f_type == COAP_MSG_CON && vg_nack == 1, "a separate response is confirmable and follows the acknowledgement");
    else v_assert(vg_f_type == COAP_MSG_ACK && mm_f_id == cur_id, "a piggy-backed response is an acknowledgement with the id of the request");
    if ((cur_bad != 0)) v_assert(mm_f_cls == COAP_MSG_CLIENT_ERR && mm_f_det == COAP_MSG_BAD_OPTION, "a request with a bad option is answered 4.02");
    vg_nresp++;
#ifdef MM_BLOCK
    if (mm_f_cls == COAP_MSG_SUCCESS)
    {
        if (vg_f_b1 == 0)
        {
            v_assert((long)mm_f_b1num * mm_f_b1size == boff, "the Block1 option of the response names the accepted block");
            v_assert(cur_pl > 0 && cur_b1 >= 0, "only well-formed blocks with a payload are accepted");
            if (cur_b1 == 0) v_assert((long)cur_b1num * mm_f_b1size == boff, "a block is accepted only at the expected position");
            v_reach("block received");
            vg_e1 = mm_f_b1size;
            if (vg_rx == 0) { vg_bk = 2; bsum = boff + cur_pl; b1esz = mm_f_b1size; } else if (vg_f_b2 != 0) vg_bk = 0;
            if (cur_b1 == 0 && cur_b1more) v_assert(vg_rx == 0, "the body is handed over when it is complete"); else v_assert(vg_rx == 1, "the body is handed over when it is complete");
        }
        if (vg_f_b2 == 0)
        {
            long off = vg_bk0 == 3 && !vg_h ? bsum : 0;
            v_assert((long)mm_f_b2num * mm_f_b2size == off, "the Block2 option of the response names the block sent");
            if (mm_f_b2more) v_assert(mm_f_plen == mm_f_b2size, "a block followed by more is full");
            else { v_assert(off + (long)mm_f_plen == bend, "the last block ends the body"); v_assert(mm_f_plen <= mm_f_b2size, "no block is longer than the block size"); }
            v_reach("block sent");
            vg_e2 = mm_f_b2size;
            if (mm_f_b2more) { vg_bk = 3; bsum = off + mm_f_plen; vg_off = bsum; } else { vg_bk = 0; bsum = 0; bend = 0; }
        }
    }
    else vg_bk = 0;
    if (vg_bk == 0) { bsum = bend = b1esz = 0; vg_m2 = vg_off = vg_e1 = vg_e2 = 0; }
#endif
    vg_new_type = vg_f_type; new_id = mm_f_id; new_sig = mm_f_sig; new_cls = mm_f_cls; new_det = mm_f_det;
    vg_wait[c] = vg_f_type == COAP_MSG_CON; vg_nret[c] = 0;
    vg_rec[c] = 0;
    if (vg_f_type == COAP_MSG_ACK) v_reach("piggy-backed response");
    if (vg_f_type == COAP_MSG_CON) v_reach("separate response");
    if (vg_f_type == COAP_MSG_NON) v_reach("non-confirmable response");
}
/* the exchange or timer event is over */
static void finish(void)
{
    int c = vg_cl;
    if (vg_ev == EV_DGRAM && vg_got == 2 && !vg_flt)
    {
        v_assert(vg_h == 0 && vg_nack == 0 && vg_nresp == 0, "a malformed message reaches no handler and gets no response");
        v_assert((vg_nrst == 1) == (vg_type == COAP_MSG_CON) && vg_nrst <= 1, "a malformed confirmable message is answered by one reset, others by nothing");
    }
    if (vg_ev == EV_DGRAM && vg_got == 1 && !vg_flt)
    {
        if (vg_dup)
        {
            v_assert(vg_h == 0, "a duplicate does not reach the handler");
            if (vg_rt[c] == vg_type && vg_rsep[c] == cur_sep && vg_kind == 1)
            {
                if (vg_type == COAP_MSG_NON) v_assert(vg_nack + vg_nresp + vg_nrst == 0, "a duplicate non-confirmable request is ignored");
                else if (cur_sep) v_assert(vg_nack == 1 && vg_nresp + vg_nrst == 0, "a duplicate request is acknowledged again");
                else v_assert(vg_nresp == 1 && vg_nack + vg_nrst == 0, "a duplicate request is answered again");
            }
            v_reach("duplicate");
        }
        else if ((vg_type == COAP_MSG_CON || vg_type == COAP_MSG_NON) && vg_kind == 1)
        {
            v_assert(vg_nresp == 1 && vg_nrst == 0, "a request gets exactly one response");
            v_assert(vg_nack == (vg_type == COAP_MSG_CON && cur_sep), "a confirmable request for a separate path is acknowledged once");
#ifdef MM_BLOCK
            v_assert(vg_h == (vg_bk0 == 0), "requests of a transfer in progress do not reach the handler");
#else
            v_assert(vg_h == !(cur_bad != 0), "the handler is called once for every acceptable request");
#endif
            v_assert(vg_fd[c] != 0, "the exchange is remembered");
            v_assert(vg_armed[c] == (vg_new_type == COAP_MSG_CON), "the acknowledgement timer runs exactly while a confirmable response is outstanding");
            vg_rec[c] = 1; vg_rt[c] = vg_type; vg_rsep[c] = cur_sep; rec_id[c] = cur_id;
            resp_id[c] = new_id; resp_sig[c] = new_sig; resp_cls[c] = new_cls; resp_det[c] = new_det; vg_resp_type[c] = vg_new_type;
        }
        else
        {
            v_assert(vg_h == 0 && vg_nack == 0 && vg_nresp == 0, "what is not a request reaches no handler and gets no response");
            if (vg_type == COAP_MSG_CON) v_assert(vg_nrst == 1, "a confirmable message that is not a request is reset");
            else v_assert(vg_nrst == 0, "only confirmable messages are reset");
            if ((vg_type == COAP_MSG_ACK || vg_type == COAP_MSG_RST) && vg_rec[c] && cur_id == resp_id[c])
            {
                v_assert(vg_armed[c] == 0, "an acknowledged or reset response is not retransmitted");
                vg_wait[c] = 0;
                v_reach("acknowledged");
            }
        }
    }
    if (vg_ev == EV_DGRAM && vg_got == 1 && vg_flt && vg_h && vg_fd[c]) { vg_rec[c] = 1; vg_rt[c] = vg_type; vg_rsep[c] = cur_sep; rec_id[c] = cur_id; resp_id[c] = new_id; resp_sig[c] = new_sig; resp_cls[c] = new_cls; resp_det[c] = new_det; vg_resp_type[c] = vg_new_type; }
    vg_p1 = vg_p2 = 0; vg_p1size = vg_p2size = 0; vg_bk0 = 0; cur_b1 = 0; vg_rx = 0; boff = cur_pl = 0; cur_b1num = cur_b1more = cur_b1size = 0; cur_pay = 0; mm_f_b1num = mm_f_b1more = mm_f_b1size = mm_f_b2num = mm_f_b2more = mm_f_b2size = 0;
    vg_ev = EV_NONE; vg_pend = 0; vg_flt = 0; vg_got = 0; vg_type = 0; vg_kind = 0; cur_cls = cur_det = 0; cur_sep = 0; cur_bad = 0; vg_dup = 0; vg_h = 0; vg_nack = 0; vg_nresp = 0; vg_nrst = 0; vg_closed = 0; vg_cl = 0;
    cur_id = 0; cur_tklen = 0; cur_bad = 0; memset(cur_token, 0, 8); new_id = new_sig = new_cls = new_det = 0; vg_new_type = 0; dg_len = 0; vg_errno = 0;
    mm_f_buf = 0; mm_f_len = 0; vg_f_type = 0; vg_f_empty = 0; mm_f_cls = mm_f_det = mm_f_id = mm_f_tklen = mm_f_sig = 0; memset(mm_f_token, 0, 8); vg_f_b1 = vg_f_b2 = 0; mm_f_plen = 0;
}
/* ---- system calls */
int getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res)
{
    struct addrinfo *a;
    v_assert(hints->ai_socktype == SOCK_DGRAM, "datagram addresses are requested");
    if (sysfail()) return EAI_FAIL;
    a = v_alloc(sizeof(*a), 5); memset(a, 0, sizeof(*a));
    a->ai_family = AF_INET; a->ai_socktype = SOCK_DGRAM; a->ai_protocol = 0; a->ai_addrlen = sizeof(struct sockaddr_in); a->ai_addr = v_cbuf(sizeof(struct sockaddr_in)); a->ai_next = NULL;
    *res = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) { v_release(a, 5); }
int socket(int d, int t, int p) { if (sysfail()) return -1; vg_sock = 1; return SD; }
int setsockopt(int s, int l, int o, const void *v, socklen_t n) { v_assert(s == SD && vg_sock, "operation on an open descriptor"); v_readable(v, n); return sysfail() ? -1 : 0; }
int bind(int s, const struct sockaddr *a, socklen_t n) { v_assert(s == SD && vg_sock, "operation on an open descriptor"); v_readable(a, n); return sysfail() ? -1 : 0; }
int fcntl(int s, int cmd, ...) { v_assert(s == SD && vg_sock, "operation on an open descriptor"); return sysfail() ? -1 : 0; }
#ifdef EVICT        /* eight clients, the first one again, then a ninth */
static long vg_clk = 1, vg_last[CLIENTS];
time_t time(time_t *t) { vg_clk++; if (vg_ev) vg_last[vg_cl] = vg_clk; return vg_clk; }
#else
time_t time(time_t *t) { return v_long(1, 1l << 40); }
#endif
const char *inet_ntop(int af, const void *src, char *dst, socklen_t n) { v_readable(src, 4); v_writable(dst, n); if (sysfail()) return NULL; dst[0] = 'a'; dst[1] = 0; return dst; }
int timerfd_create(int clk, int fl)
{
    int f;
    v_assert(vg_ev == EV_DGRAM && vg_fd[vg_cl] == 0, "one transaction per client");
    if (sysfail()) return -1;
    for (f = SD + 1; vg_fdcl[f]; f++) if (f == NFD - 1) { v_fail("at most eight transactions"); v_stop(); }
    v_assert(f <= SD + COAP_SERVER_NUM_TRANS, "at most eight transactions");
    vg_fdcl[f] = vg_cl + 1; vg_fd[vg_cl] = f; vg_armed[vg_cl] = 0;
    return f;
}
int timerfd_settime(int f, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    int c; unsigned long ms;
    v_assert(f > SD && f < NFD && vg_fdcl[f] != 0, "the timer is open"); if (!(f > SD && f < NFD && vg_fdcl[f] != 0)) v_stop();
    c = vg_fdcl[f] - 1;
    if (sysfail()) return -1;
    v_assert(n->it_interval.tv_sec == 0 && n->it_interval.tv_nsec == 0, "one-shot timers only");
    if (n->it_value.tv_sec == 0 && n->it_value.tv_nsec == 0) { vg_armed[c] = 0; return 0; }
    vg_armed[c] = 1;
    v_assert(n->it_value.tv_nsec >= 0 && n->it_value.tv_nsec < 1000000000, "the timer value is valid");
    ms = n->it_value.tv_sec * 1000 + n->it_value.tv_nsec / 1000000;
    if (vg_ev == EV_DGRAM) v_assert(ms >= 2000 && ms <= 3000, "the first timeout is between ACK_TIMEOUT and ACK_TIMEOUT * ACK_RANDOM_FACTOR");
    else v_assert(ms == 2 * prev_ms[c], "the timeout doubles");
    prev_ms[c] = ms;
    return 0;
}
int close(int f)
{
    int c, k, open = 0;
    if (f == SD) { v_assert(vg_sock, "closed once"); vg_sock = 0; return 0; }
    v_assert(f > SD && f < NFD && vg_fdcl[f] != 0, "closed once"); if (!(f > SD && f < NFD && vg_fdcl[f] != 0)) v_stop();
    c = vg_fdcl[f] - 1;
    for (k = 0; k < CLIENTS; k++) if (vg_fd[k]) open++;
    v_assert(vg_down || vg_flt || (vg_ev == EV_TIMER && c == vg_cl && vg_nret[c] >= 4)
          || (vg_ev == EV_DGRAM && c == vg_cl && (vg_got == 2 || (vg_got == 1 && !vg_dup && (vg_kind != 1 || vg_type == COAP_MSG_ACK || vg_type == COAP_MSG_RST))))
          || (vg_ev == EV_DGRAM && c != vg_cl && open >= COAP_SERVER_NUM_TRANS), "an exchange is forgotten only on failure, rejection, exhausted retransmission or when a ninth client arrives");
#ifdef EVICT
    if (!vg_down) { for (k = 0; k < CLIENTS; k++) if (vg_fd[k] && k != c) v_assert(vg_last[c] <= vg_last[k], "a ninth client takes the place of the client that was inactive longest"); v_reach("ninth client"); }
#endif
    vg_bk = 0; bsum = bend = b1esz = 0; tr = 0; vg_m2 = vg_off = vg_e1 = vg_e2 = 0;
    vg_fdcl[f] = 0; vg_fd[c] = 0; vg_armed[c] = 0; vg_rec[c] = 0; vg_wait[c] = 0; vg_nret[c] = 0; vg_rt[c] = 0; vg_rsep[c] = 0; vg_resp_type[c] = 0;
    rec_id[c] = 0; resp_id[c] = 0; resp_sig[c] = 0; resp_cls[c] = 0; resp_det[c] = 0; prev_ms[c] = 0;
    v_reach("transaction released");
    return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    int c;
    finish();
#ifdef EVENTS
    if (vg_n == EVENTS) { vg_errno = EINTR; vg_down = 1; return -1; }
    vg_n++;
#else
    if (v_choice(2)) { vg_errno = EINTR; vg_down = 1; return -1; }
#endif
    for (c = 0; c < CLIENTS; c++) if (vg_fd[c]) v_assert(FD_ISSET(vg_fd[c], r) && n > vg_fd[c], "every timer is watched");
    v_assert(FD_ISSET(SD, r) && n > SD, "the socket is watched");
    FD_ZERO(r);
#ifdef EVICT
    vg_cl = vg_n <= 8 ? vg_n - 1 : vg_n == 9 ? 0 : 8;
    vg_ev = EV_DGRAM; vg_pend = 1; dg_len = v_long(4, COAP_MSG_MAX_BUF_LEN); FD_SET(SD, r); return 1;
#endif
    vg_cl = v_choice(CLIENTS);
    if (v_choice(2)) { vg_ev = EV_DGRAM; vg_pend = 1; dg_len = v_long(0, COAP_MSG_MAX_BUF_LEN); FD_SET(SD, r); return 1; }
    if (!vg_fd[vg_cl] || !vg_armed[vg_cl]) v_stop();
    vg_ev = EV_TIMER;
    FD_SET(vg_fd[vg_cl], r);
    return 1;
}
ssize_t recvfrom(int s, void *buf, size_t len, int flags, struct sockaddr *a, socklen_t *al)
{
    struct sockaddr_in sin; long n;
    v_assert(s == SD && vg_sock, "operation on an open descriptor");
    if (!vg_pend) { vg_flt = 1; vg_errno = EAGAIN; return -1; }
    if (FAULTS && v_choice(2)) { vg_flt = 1; vg_errno = v_choice(2) ? EAGAIN : EIO; return -1; }
    n = dg_len; if (n > len) n = len;
    v_havoc(buf, n);
    memset(&sin, 0, sizeof(sin)); sin.sin_family = AF_INET; sin.sin_port = 1000 + vg_cl; sin.sin_addr.s_addr = 7 + vg_cl;
    v_assert(*al >= sizeof(sin), "room for the peer address");
    memcpy(a, &sin, sizeof(sin)); *al = sizeof(sin);
    if (!(flags & MSG_PEEK)) vg_pend = 0;
    return n;
}
ssize_t sendto(int s, const void *buf, size_t len, int flags, const struct sockaddr *a, socklen_t al)
{
    const struct sockaddr_in *sin = (const struct sockaddr_in *)a;
    v_assert(s == SD && vg_sock, "operation on an open descriptor");
    v_readable(buf, len); v_assert(al == sizeof(*sin), "complete peer address");
    if (sysfail()) return -1;
    on_send(sin->sin_port - 1000, buf, len);
    return len;
}
#ifdef MM_BLOCK
static int rx(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    vg_rx++;
    v_assert(vg_rx == 1, "the body is handed over once");
    v_assert(coap_server_trans_get_body_end(trans) == boff + cur_pl, "the body handed over is the sum of the accepted blocks");
    v_assert(v_equal(coap_server_trans_get_body(trans) + boff, cur_pay, cur_pl), "the accepted block is in its place in the body");
    v_reach("body received");
    if (mm_fault()) return -EIO;
    if (v_choice(2)) return coap_msg_set_code(resp, COAP_MSG_CLIENT_ERR, 0);
    coap_msg_set_code(resp, COAP_MSG_SUCCESS, 4);
    bend = v_choice(2) ? 0 : v_long(1, coap_server_trans_get_body_len(trans));
    coap_server_trans_set_body_end(trans, bend);
    return 0;
}
#endif
static int handle(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    char p[2];
    vg_h++;
    v_assert(vg_h == 1, "the handler is called once per request");
    v_assert(vg_got == 1 && vg_kind == 1 && (vg_type == COAP_MSG_CON || vg_type == COAP_MSG_NON), "only requests reach the handler");
    v_assert(!vg_dup, "a duplicate does not reach the handler");
    v_assert(!(cur_bad != 0), "a request with an unrecognised critical option does not reach the handler");
    v_assert(req->msg_id == cur_id, "the handler sees the received request");
    if (mm_fault()) return -EIO;
#ifdef MM_BLOCK
    {
        long n = v_long(0, 2048);
        tr = trans; boff = 0; bend = n; bsum = 0;
        return coap_server_trans_handle_blockwise(trans, req, resp, BSZ, BSZ, v_cbuf(n), n, rx);
    }
#endif
    coap_msg_set_code(resp, v_int(2, 5), v_int(0, 31));
    p[0] = p[1] = 0; if (coap_msg_set_payload(resp, p, 2) < 0) return -ENOMEM; coap_msg_clear_payload(resp);
    return 0;
}
int harness(void)
{
    int k;
    vp_init();
    if (coap_server_create(&server, handle, "h", "p") != 0) { v_assert(FAULTS, "creation succeeds"); v_assert(!vg_sock, "a failed creation leaves nothing open"); v_assert_noleak("failed creation"); return 0; }
#ifndef MM_BLOCK
    if (coap_server_add_sep_resp_uri_path(&server, "/s") != 0) { vg_down = 1; coap_server_destroy(&server); v_assert_noleak("after a failure to add a path"); return 0; }
#endif
    vg_flt = 0;
    coap_server_run(&server);
    vg_down = 1;
    coap_server_destroy(&server);
    v_assert(!vg_sock, "the socket is closed");
    for (k = 0; k < CLIENTS; k++) v_assert(vg_fd[k] == 0, "every timer is closed");
    v_assert_noleak("after the server was destroyed");
    v_reach("shutdown");
    return 0;
}
