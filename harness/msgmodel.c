/* Model of coap_msg.c for the analysis of its callers (coap_msg.c itself is analysed by P01-P05, P07-P09). */
#include <errno.h>
#include <string.h>
#include "mm.h"
#ifndef MM_PATHS
#define MM_PATHS 1
#endif
#ifndef MM_BADTYPE
#define MM_BADTYPE v_choice(4)
#endif
#ifndef MM_KINDS
#define MM_KINDS v_choice(3)
#endif
#ifndef MM_MAXPAY
#define MM_MAXPAY COAP_MSG_MAX_BUF_LEN
#endif
char *mm_f_buf; long mm_f_len;
int vg_f_type, vg_f_empty, vg_f_b1, vg_f_b2; unsigned mm_f_cls, mm_f_det, mm_f_id, mm_f_tklen, mm_f_sig, mm_f_plen; char mm_f_token[8];
unsigned mm_f_b1num, mm_f_b1more, mm_f_b1size, mm_f_b2num, mm_f_b2more, mm_f_b2size;
int vg_p1size, vg_p2size, vg_p1, vg_p2;
static int mm_bad_type; static unsigned mm_bad_id;

mm_body_t *mm_body(coap_msg_t *msg) { return (mm_body_t *)msg->op_list.first; }
static mm_body_t *mm_need(coap_msg_t *msg)
{
    mm_body_t *b = mm_body(msg);
    if (b == NULL)
    {
        b = v_alloc(sizeof(mm_body_t), TAG_MSG);
        memset(b, 0, sizeof(*b)); b->b1 = b->b2 = 1;
        msg->op_list.first = (coap_msg_op_t *)b;
    }
    return b;
}
int coap_msg_op_calc_block_szx(unsigned size)
{
    switch (size) { case 16: return 0; case 32: return 1; case 64: return 2; case 128: return 3; case 256: return 4; case 512: return 5; case 1024: return 6; }
    return -EINVAL;
}
#ifdef MM_RAND
void mm_rand(char *buf, size_t len);
void coap_msg_gen_rand_str(char *buf, size_t len) { mm_rand(buf, len); }
#else
void coap_msg_gen_rand_str(char *buf, size_t len) { v_havoc(buf, len); }
#endif
void coap_msg_create(coap_msg_t *msg) { memset(msg, 0, sizeof(*msg)); msg->ver = COAP_MSG_VER; }
void coap_msg_destroy(coap_msg_t *msg)
{
    if (msg->op_list.first != NULL) v_release(msg->op_list.first, TAG_MSG);
    memset(msg, 0, sizeof(*msg));
}
void coap_msg_reset(coap_msg_t *msg) { coap_msg_destroy(msg); coap_msg_create(msg); }
unsigned coap_msg_check_critical_ops(coap_msg_t *msg) { mm_body_t *b = mm_body(msg); return b ? b->bad : 0; }
unsigned coap_msg_check_unsafe_ops(coap_msg_t *msg) { mm_body_t *b = mm_body(msg); return b ? b->bad : 0; }
int coap_msg_parse_type_msg_id(char *buf, size_t len, unsigned *type, unsigned *msg_id)
{
    v_readable(buf, len);
    if (len < 4) return -EBADMSG;
    *type = mm_bad_type; *msg_id = mm_bad_id;
    return 0;
}
int coap_msg_parse_block_op(unsigned *num, unsigned *more, unsigned *size, coap_msg_t *msg, int type)
{
    mm_body_t *b = mm_body(msg);
    if (b == NULL) return 1;
    if (type == COAP_MSG_BLOCK1) { if (b->b1 == 0) { *num = b->b1num; *more = b->b1more; *size = b->b1size; } return b->b1; }
    if (b->b2 == 0) { *num = b->b2num; *more = b->b2more; *size = b->b2size; }
    return b->b2;
}
static unsigned bsize(void) { return v_choice(2) ? 32 : 1024; }
ssize_t coap_msg_parse(coap_msg_t *msg, char *buf, size_t len)
{
    mm_body_t *b;
    vg_p1size = vg_p2size = 0;
    coap_msg_reset(msg);
    v_readable(buf, len);
#if defined(MM_ONLYREQ) || defined(MM_RESPONSE)
    if (len < 4)
#else
    if (len < 4 || v_choice(2))
#endif
    {
        mm_bad_type = MM_BADTYPE; mm_bad_id = v_int(0, 65535);
        mm_malformed(len < 4 ? -1 : mm_bad_type, mm_bad_id);
        return -EBADMSG;
    }
#ifdef MM_RESPONSE
    b = mm_need(msg);
    b->sig = v_int(0, 1 << 30); b->b1 = b->b2 = 1;
    mm_header(msg);
#elif defined(MM_ONLYREQ)
#ifndef MM_OTHER
#define MM_OTHER MM_ONLYREQ
#endif
    msg->type = COAP_MSG_CON; msg->msg_id = v_int(0, 65535); msg->code_detail = MM_ONLYREQ == MM_OTHER || v_choice(2) ? MM_ONLYREQ : MM_OTHER;
    b = mm_need(msg);
    b->sig = v_int(0, 1 << 30); b->b1 = b->b2 = 1; b->path = v_int(0, MM_PATHS);
#else
    msg->type = v_choice(4); msg->msg_id = v_int(0, 65535);
    switch (MM_KINDS)
    {
    case 0: break;                                                             /* empty */
    case 1: msg->code_detail = v_int(1, 31); break;                            /* request */
    default: msg->code_class = v_int(1, 7); msg->code_detail = v_int(0, 31);   /* anything else */
    }
#ifdef MM_HEADER
    mm_header(msg);
#else
    msg->token_len = v_int(0, 8); *(long *)msg->token = v_any();
#endif
    if (mm_fault()) { mm_need(msg); mm_malformed(-1, 0); return -ENOMEM; }
    b = mm_need(msg);
    b->bad = v_int(0, 65804);
    b->path = v_int(0, 1);
    b->sig = v_int(0, 1 << 30);
    b->b1 = b->b2 = 1;
#endif
#ifdef MM_BLOCK
    /* each block option: well-formed with a small or a large block size, absent or malformed */
    b->b1num = v_int(0, (1 << 20) - 1); b->b1more = v_int(0, 1); b->b1 = vg_p1 = 1; b->b1size = 0;
    b->b2num = v_int(0, (1 << 20) - 1); b->b2more = v_int(0, 1); b->b2 = vg_p2 = 1; b->b2size = 0;
#if MM_BLOCK & 1
    if (v_choice(2)) { b->b1 = vg_p1 = 0; b->b1size = vg_p1size = bsize(); } else if (v_choice(2)) b->b1 = vg_p1 = -EINVAL;
    if (v_choice(2)) { msg->payload_len = v_long(1, MM_MAXPAY); msg->payload = v_cbuf(msg->payload_len); }
#endif
#if MM_BLOCK & 8
    if (v_choice(2)) { msg->payload_len = v_long(1, MM_MAXPAY); msg->payload = v_cbuf(msg->payload_len); }
#endif
#if MM_BLOCK & 2
    if (v_choice(2)) { b->b2 = vg_p2 = 0; b->b2size = vg_p2size = bsize(); } else if (v_choice(2)) b->b2 = vg_p2 = -EINVAL;
#endif
#if MM_BLOCK & 4
    if (v_choice(2)) { b->b2 = vg_p2 = 0; b->b2size = vg_p2size = 32; }
#endif
#endif
    mm_parsed(msg, b);
    return 0;
}
int coap_msg_set_type(coap_msg_t *msg, unsigned type) { if (type > 3) return -EINVAL; msg->type = type; return 0; }
int coap_msg_set_code(coap_msg_t *msg, unsigned c, unsigned d) { if (c > 7 || d > 31) return -EINVAL; msg->code_class = c; msg->code_detail = d; return 0; }
int coap_msg_set_msg_id(coap_msg_t *msg, unsigned id) { if (id > 65535) return -EINVAL; msg->msg_id = id; return 0; }
int coap_msg_set_token(coap_msg_t *msg, char *buf, size_t len) { 
    if (len > 8) return -EINVAL;
    v_readable(buf, len);
    if (v_objsize(buf) - v_objoff(buf) >= 8) memcpy(msg->token, buf, 8); else { v_havoc(msg->token, 8); memcpy(msg->token, buf, len); }
    msg->token_len = len;
    return 0;
 }
static void fmtblk(mm_body_t *b, unsigned num, const char *val)
{
    unsigned n, m, s; extern unsigned mm_v_num, mm_v_more, mm_v_size; extern const char *mm_v_buf;
    if (num == COAP_MSG_BLOCK1) { b->b1 = 0; b->b1num = mm_v_num; b->b1more = mm_v_more; b->b1size = mm_v_size; }
    else { b->b2 = 0; b->b2num = mm_v_num; b->b2more = mm_v_more; b->b2size = mm_v_size; }
}
unsigned mm_v_num, mm_v_more, mm_v_size;
int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned more, unsigned size)
{
    int szx = coap_msg_op_calc_block_szx(size), n;
    if (szx < 0 || num > (1 << 20) - 1) return -EINVAL;
    mm_v_num = num; mm_v_more = more != 0; mm_v_size = size;
    n = num < 16 ? 1 : num < 4096 ? 2 : 3;
    if (n > len) return -EINVAL;
    v_havoc(val, n);
    return n;
}
int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, const char *val, unsigned len)
{
    v_readable(val, len);
    if (v_choice(2)) return -EINVAL;
    *num = v_int(0, (1 << 20) - 1); *more = v_int(0, 1); *size = bsize();
    return 0;
}
int coap_msg_op_num_is_recognized(unsigned num) { return v_choice(2); }
int coap_msg_add_op(coap_msg_t *msg, unsigned num, unsigned len, const char *val)
{
    mm_body_t *b;
    v_readable(val, len);
    if (mm_fault()) return -ENOMEM;
    b = mm_need(msg);
    b->sig = v_int(0, 1 << 30);
    if (num == COAP_MSG_BLOCK1 || num == COAP_MSG_BLOCK2) fmtblk(b, num, val);
    return 0;
}
int coap_msg_set_payload(coap_msg_t *msg, char *buf, size_t len)
{
    msg->payload_len = 0; msg->payload = NULL;
    if (len == 0) return 0;
    v_readable(buf, len);
    if (mm_fault()) return -ENOMEM;
    mm_need(msg)->sig = v_int(0, 1 << 30);
    msg->payload = buf; msg->payload_len = len;
    mm_payload(buf, len);
    return 0;
}
void coap_msg_clear_payload(coap_msg_t *msg) { msg->payload = NULL; msg->payload_len = 0; }
int coap_msg_copy(coap_msg_t *dst, coap_msg_t *src)
{
    mm_body_t *b = mm_body(src), *d;
    dst->ver = src->ver; dst->type = src->type; dst->code_class = src->code_class; dst->code_detail = src->code_detail; dst->msg_id = src->msg_id;
    memcpy(dst->token, src->token, 8); dst->token_len = src->token_len;
    if (b != NULL)
    {
        if (mm_fault()) { mm_need(dst); return -ENOMEM; }
        d = mm_need(dst);
        *d = *b;
    }
    dst->payload_len = src->payload_len; dst->payload = src->payload_len ? v_cbuf(src->payload_len) : NULL;
    return 0;
}
size_t coap_msg_uri_path_to_str(coap_msg_t *msg, char *buf, size_t len)
{
    mm_body_t *b = mm_body(msg);
    if (len == 0) return 0;
    memset(buf, 0, len);
    if (len < 3) v_stop();
    buf[0] = '/';
    if (b != NULL) { if (b->path) buf[1] = 's'; else buf[1] = 'x'; }
    return 2;
}
ssize_t coap_msg_format(coap_msg_t *msg, char *buf, size_t len)
{
    mm_body_t *b = mm_body(msg); long n;
    if (mm_fault()) return -ENOSPC;
    vg_f_type = msg->type; vg_f_empty = msg->code_class == 0 && msg->code_detail == 0; mm_f_cls = msg->code_class; mm_f_det = msg->code_detail;
    mm_f_id = msg->msg_id; mm_f_tklen = msg->token_len; memcpy(mm_f_token, msg->token, 8); mm_f_sig = b ? b->sig : 0; mm_f_plen = msg->payload_len;
    vg_f_b1 = b ? b->b1 : 1; vg_f_b2 = b ? b->b2 : 1;
#ifdef MM_BLOCK
    if (b) { mm_f_b1num = b->b1num; mm_f_b1more = b->b1more; mm_f_b1size = b->b1size; mm_f_b2num = b->b2num; mm_f_b2more = b->b2more; mm_f_b2size = b->b2size; }
#endif
    n = v_long(4, len); v_havoc(buf, n);
    mm_f_buf = buf; mm_f_len = n;
    return n;
}
