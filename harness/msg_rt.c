/* What coap_msg_format writes is decoded by the reference decoder into exactly the message that was built,
 * and coap_msg_parse reads it back, for every message with at most NOPS options added in any order. */
#include "ref.h"
#include "pools.h"
#include "coap_msg.h"
#ifndef NOPS
#define NOPS 1
#endif
#ifdef FIX_HDR
#define V_REACH_HDR(x)
#else
#define V_REACH_HDR(x) v_reach(x)
#endif
typedef struct { unsigned num, len; unsigned char *val; } in_op_t;
int harness(void)
{
    coap_msg_t msg; ref_msg_t ref; size_t len, plen; unsigned char *buf, *pay = NULL, *tok; ssize_t r; unsigned n, k, type, cls, det, id, tkl; in_op_t in[4], t; size_t need;
    vp_init();
    v_assume(vp_small_len >= sizeof(coap_msg_op_t) && vp_medium_len >= 65535);
    coap_msg_create(&msg);
#ifdef FIX_HDR
    type = COAP_MSG_CON; cls = 0; det = 1; tkl = 0; id = 0x1234; plen = 0;
#else
    type = v_choice(4); cls = v_int(0, 7); det = v_int(0, 31); tkl = v_choice(9); id = v_int(0, 65535); plen = v_long(0, 65000);
#endif
    if (!(cls == 0 || cls == 2 || cls == 4 || cls == 5)) v_stop();
    v_split(cls); v_split(det == 0);
    tok = v_cbuf(tkl);
    v_assert(coap_msg_set_type(&msg, type) == 0, "type accepted");
    v_assert(coap_msg_set_code(&msg, cls, det) == 0, "code accepted");
    v_assert(coap_msg_set_msg_id(&msg, id) == 0, "message id accepted");
    v_assert(coap_msg_set_token(&msg, (char *)tok, tkl) == 0, "token accepted");
    if (plen > 0) { pay = v_cbuf(plen); v_assert(coap_msg_set_payload(&msg, (char *)pay, plen) == 0, "payload accepted"); }
    n = v_choice(NOPS + 1);
    for (k = 0; k < n; k++)
    {
        in[k].num = v_int(0, 65535); in[k].len = v_int(0, 65000); in[k].val = v_cbuf(in[k].len);
        v_assert(coap_msg_add_op(&msg, in[k].num, in[k].len, (char *)in[k].val) == 0, "option accepted");
    }
    /* expected order: by number, equal numbers in the order of insertion */
    if (n == 2 && in[1].num < in[0].num) { t = in[0]; in[0] = in[1]; in[1] = t; }
    if (n == 3)
    {
        if (in[1].num < in[0].num) { t = in[0]; in[0] = in[1]; in[1] = t; }
        if (in[2].num < in[0].num) { t = in[2]; in[2] = in[1]; in[1] = in[0]; in[0] = t; }
        else if (in[2].num < in[1].num) { t = in[2]; in[2] = in[1]; in[1] = t; }
    }
    len = v_long(0, 1 << 20);
    buf = v_ubuf(len);
    r = coap_msg_format(&msg, (char *)buf, len);
    if (cls == 0 && det == 0 ? (type == 1 || tkl || n || plen) : type == 3)
    {
        V_REACH_HDR("inconsistent");
        v_assert(r < 0, "a message that violates RFC 7252 is refused");
        v_stop();
    }
    if (r < 0)
    {
        v_reach("no space");
        need = 4 + tkl + (plen ? plen + 1 : 0);
        for (k = 0; k < n; k++)
        {
            unsigned d = in[k].num - (k ? in[k - 1].num : 0);
            need += 1 + (d >= 269 ? 2 : d >= 13 ? 1 : 0) + (in[k].len >= 269 ? 2 : in[k].len >= 13 ? 1 : 0) + in[k].len;
        }
        v_assert(len < need, "a message is refused only for lack of space");
        v_stop();
    }
    v_reach("formatted");
    v_assert(ref_decode(buf, r, &ref, NOPS) == 0, "the output is a well-formed message");
    v_assert(ref.type == type, "type");
    v_assert(ref.cls == cls && ref.det == det, "code");
    v_assert(ref.id == id, "message id");
    v_assert(ref.tkl == tkl, "token length");
    v_assert(v_equal(buf + 4, tok, tkl), "token");
    v_assert(ref.nops == n, "number of options");
    for (k = 0; k < n; k++)
    {
        v_assert(ref.op[k].num == in[k].num, "option number");
        v_assert(ref.op[k].len == in[k].len, "option length");
        v_assert(v_equal(buf + ref.op[k].val, in[k].val, in[k].len), "option value");
    }
    v_assert(ref.pay_len == plen, "payload length");
    if (plen) v_assert(v_equal(buf + ref.pay, pay, plen), "payload");
    if (n == NOPS) v_reach("options");
    return 0;
}
