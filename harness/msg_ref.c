/* The parser agrees with the reference decoder on every datagram with at most MAXOPS options. */
#include "ref.h"
#include "coap_msg.h"
#ifndef MAXOPS
#define MAXOPS 1
#endif
#include "pools.h"
int harness(void)
{
    coap_msg_t msg; ref_msg_t ref; size_t len; unsigned char *buf; ssize_t r; int w; unsigned k; coap_msg_op_t *op;
    vp_init();
    v_assume(vp_small_len >= sizeof(coap_msg_op_t) && vp_medium_len >= 65535);   /* memory is not the limit here */
    len = v_long(0, 65535);
    buf = v_cbuf(len);
#ifdef FIX_HDR    /* headers are covered by the job with one option: fix one here to reach more options */
    if (len < 4 || buf[0] != 0x40 || buf[1] != 1) v_stop();
#endif
    w = ref_decode(buf, len, &ref, MAXOPS);
    if (w > 0) v_stop();
    coap_msg_create(&msg);
    vp_small_limit = MAXOPS + 2;   /* a datagram with at most MAXOPS options never yields more options */
    r = coap_msg_parse(&msg, (char *)buf, len);
    if (w < 0)
    {
        v_reach("malformed");
        v_assert(r < 0, "a malformed message is rejected");
        v_stop();
    }
    v_reach("well-formed");
    v_assert(r == 0, "a well-formed message is accepted");
    v_assert(msg.ver == 1, "version");
    v_assert(msg.type == ref.type, "type");
    v_assert(msg.token_len == ref.tkl, "token length");
    v_assert(v_equal(msg.token, buf + 4, ref.tkl), "token");
    v_assert(msg.code_class == ref.cls, "code class");
    v_assert(msg.code_detail == ref.det, "code detail");
    v_assert(msg.msg_id == ref.id, "message id");
    op = msg.op_list.first;
    for (k = 0; k < ref.nops; k++)
    {
        v_assert(op != NULL, "no option is missing");
        v_assert(op->num == ref.op[k].num, "option number");
        v_assert(op->len == ref.op[k].len, "option length");
        v_assert(v_equal(op->val, buf + ref.op[k].val, ref.op[k].len), "option value");
        op = op->next;
    }
    v_assert(op == NULL, "no extra option");
    v_assert(msg.payload_len == ref.pay_len, "payload length");
    v_assert(v_equal(msg.payload, buf + ref.pay, ref.pay_len), "payload");
    if (ref.nops == MAXOPS && ref.pay_len) v_reach("options and payload");
    return 0;
}
