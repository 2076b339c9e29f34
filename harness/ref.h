/* Reference decoder for the option area of RFC 7252 (independent of the code under analysis). */
#ifndef REF_H
#define REF_H
#include "v.h"
typedef struct { unsigned num, len; size_t val; } ref_op_t;       /* val: offset of the value in the datagram */
typedef struct { unsigned type, tkl, cls, det, id, nops; ref_op_t op[4]; size_t pay, pay_len; } ref_msg_t;
/* decodes one option at off; returns 0 if well formed */
static int ref_op(const unsigned char *b, size_t len, size_t *off, unsigned *prev, ref_op_t *o)
{
    unsigned d = b[*off] >> 4, l = b[*off] & 15;
    size_t p = *off + 1;
    if (d == 15 || l == 15) return -1;
    if (d == 13) { if (p + 1 > len) return -1; d = 13 + b[p]; p += 1; }
    else if (d == 14) { if (p + 2 > len) return -1; d = 269 + 256 * b[p] + b[p + 1]; p += 2; }
    if (l == 13) { if (p + 1 > len) return -1; l = 13 + b[p]; p += 1; }
    else if (l == 14) { if (p + 2 > len) return -1; l = 269 + 256 * b[p] + b[p + 1]; p += 2; }
    if (p + l > len) return -1;
    o->num = *prev + d; o->len = l; o->val = p;
    *prev = o->num; *off = p + l;
    return 0;
}
/* returns 0 well formed, -1 malformed, 1 more than max options */
static int ref_decode(const unsigned char *b, size_t len, ref_msg_t *m, unsigned max)
{
    size_t off; unsigned prev = 0;
    m->nops = 0; m->pay = 0; m->pay_len = 0;
    if (len < 4) return -1;
    if ((b[0] >> 6) != 1) return -1;
    m->type = (b[0] >> 4) & 3; m->tkl = b[0] & 15;
    m->cls = b[1] >> 5; m->det = b[1] & 31; m->id = 256 * b[2] + b[3];
    if (m->tkl > 8) return -1;
    v_split(m->tkl);
    if (m->cls != 0 && m->cls != 2 && m->cls != 4 && m->cls != 5) return -1;
    if (4 + m->tkl > len) return -1;
    off = 4 + m->tkl;
    while (off < len && b[off] != 0xff)
    {
        if (m->nops == max) return 1;
        if (ref_op(b, len, &off, &prev, &m->op[m->nops])) return -1;
        m->nops++;
    }
    if (off < len)
    {
        if (off + 1 == len) return -1;
        m->pay = off + 1; m->pay_len = len - off - 1;
    }
    if (m->cls == 0 && m->det == 0) { if (m->type == 1 || m->tkl || m->nops || m->pay_len) return -1; }
    else if (m->type == 3) return -1;
    return 0;
}
#endif
