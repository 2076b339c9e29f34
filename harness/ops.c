/* Option classification and the checks of critical / unsafe options, the path reconstruction and the message copy,
 * for every message with at most NOPS options. */
#include "pools.h"
#include "coap_msg.h"
#ifndef NOPS
#define NOPS 2
#endif
static int recognised(unsigned n)
{
    return n == 1 || n == 3 || n == 4 || n == 5 || n == 7 || n == 8 || n == 11 || n == 12 || n == 14 || n == 15 || n == 17 || n == 20
        || n == 23 || n == 27 || n == 28 || n == 35 || n == 39 || n == 60;
}
int h_class(void)
{
    unsigned n = v_int(0, 0x7fffffff);
    int r = coap_msg_op_num_is_recognized(n);
    v_assert((r != 0) == recognised(n), "the recognised options are those of RFC 7252 and RFC 7959");
    if (r) v_reach("recognised"); else v_reach("unrecognised");
    return 0;
}
static coap_msg_t msg; static unsigned num[4], cnt; static unsigned ln[4]; static char *vl[4];
static void build(void)
{
    unsigned k;
    vp_init();
    v_assume(vp_small_len >= sizeof(coap_msg_op_t) && vp_medium_len >= 65535);
    coap_msg_create(&msg);
    cnt = v_choice(NOPS + 1);
    for (k = 0; k < cnt; k++)
    {
        num[k] = v_int(0, 65535); if (k) v_assume(num[k] >= num[k - 1]);
        ln[k] = v_int(0, 600); vl[k] = v_cbuf(ln[k]);
        if (coap_msg_add_op(&msg, num[k], ln[k], vl[k]) != 0) v_stop();
    }
}
int h_critical(void)
{
    unsigned k, want = 0, r;
    build();
    for (k = 0; k < cnt && !want; k++) if (num[k] % 2 == 1 && !recognised(num[k])) want = num[k];
    r = coap_msg_check_critical_ops(&msg);
    v_assert(r == want, "the first unrecognised critical option is reported, none otherwise");
    if (want) v_reach("rejected"); else v_reach("passed");
    return 0;
}
int h_unsafe(void)
{
    unsigned k, want = 0, r;
    build();
    for (k = 0; k < cnt && !want; k++) if (num[k] % 4 >= 2 && !recognised(num[k])) want = num[k];
    r = coap_msg_check_unsafe_ops(&msg);
    v_assert(r == want, "the first unrecognised unsafe option is reported, none otherwise");
    if (want) v_reach("rejected"); else v_reach("passed");
    return 0;
}
int h_block(void)
{
    unsigned k, n, m, s, n2, m2, s2; int r, t = v_choice(2) ? COAP_MSG_BLOCK1 : COAP_MSG_BLOCK2, want = 1;
    build();
    r = coap_msg_parse_block_op(&n, &m, &s, &msg, t);
    for (k = 0; k < cnt; k++) if (num[k] == (unsigned)t)
    {
        want = coap_msg_op_parse_block_val(&n2, &m2, &s2, vl[k], ln[k]);
        v_assert(want < 0 ? r < 0 : r == 0, "the first block option of the requested kind decides");
        if (r == 0) { v_reach("found"); v_assert(n == n2 && m == m2 && s == s2, "its value is returned"); }
        v_stop();
    }
    v_reach("absent");
    v_assert(r == 1, "absence is reported");
    return 0;
}
int h_path(void)
{
    size_t len, c, want = 0, seg, i; char *buf; unsigned k;
    build();
    for (k = 0; k < cnt; k++) if (num[k] == 11) want += 1 + ln[k];
    if (want == 0) want = 1;
    len = v_long(0, 2000);
    buf = v_ubuf(len);
    c = coap_msg_uri_path_to_str(&msg, buf, len);
    if (len == 0) { v_assert(c == 0, "no buffer, no result"); v_stop(); }
    v_assert(buf[len - 1] == 0, "the string is terminated");
    if (len == 1) v_stop();
    v_assert(c == want, "the length of the whole path is returned");
    if (want < len)
    {
        v_reach("fits");
        i = 0;
        for (k = 0; k < cnt; k++) if (num[k] == 11)
        {
            v_assert(buf[i] == '/', "every segment is preceded by a slash");
            v_assert(v_equal(buf + i + 1, vl[k], ln[k]), "segment text");
            i += 1 + ln[k];
        }
        if (i == 0) { v_assert(buf[0] == '/', "an empty path is the root"); i = 1; }
        v_assert(buf[i] == 0, "the path ends where the length says");
    }
    else v_reach("truncated");
    return 0;
}
int h_copy(void)
{
    coap_msg_t dst; unsigned k, tkl; size_t plen; char *pay = NULL, *tok; coap_msg_op_t *op; int r;
    build();
    tkl = v_choice(9); tok = v_cbuf(tkl); plen = v_long(0, 2000);
    coap_msg_set_type(&msg, v_choice(4)); coap_msg_set_code(&msg, v_int(0, 7), v_int(0, 31)); coap_msg_set_msg_id(&msg, v_int(0, 65535)); coap_msg_set_token(&msg, tok, tkl);
    if (plen) { pay = v_cbuf(plen); if (coap_msg_set_payload(&msg, pay, plen) != 0) v_stop(); }
    coap_msg_create(&dst);
    r = coap_msg_copy(&dst, &msg);
    if (r == 0)
    {
        v_reach("copied");
        v_assert(dst.type == msg.type && dst.code_class == msg.code_class && dst.code_detail == msg.code_detail && dst.msg_id == msg.msg_id, "header fields");
        v_assert(dst.token_len == tkl && v_equal(dst.token, tok, tkl), "token");
        op = dst.op_list.first;
        for (k = 0; k < cnt; k++)
        {
            v_assert(op != NULL, "no option is missing");
            v_assert(op->num == num[k] && op->len == ln[k], "option header");
            v_assert(v_equal(op->val, vl[k], ln[k]), "option value");
            op = op->next;
        }
        v_assert(op == NULL, "no extra option");
        v_assert(dst.payload_len == plen, "payload length");
        if (plen) { v_assert(v_equal(dst.payload, pay, plen), "payload"); v_assert(!v_same_obj(dst.payload, msg.payload), "the payload is not shared"); }
    }
#if VP_MAY_FAIL
    else v_reach("refused");
#endif
    coap_msg_destroy(&dst);
    coap_msg_destroy(&msg);
    v_assert_noleak("every block of both messages is returned");
    return 0;
}
int h_set(void)
{
    coap_msg_t m; unsigned a, b, c, d; size_t n, l1; char *t, *p1; int r;
    vp_init();
    coap_msg_create(&m);
    v_assert(m.ver == 1 && m.token_len == 0 && m.op_list.first == NULL && m.payload == NULL && m.payload_len == 0, "a new message is empty");
    a = v_int(0, 0x7fffffff); r = coap_msg_set_type(&m, a); v_assert((r == 0) == (a < 4), "types 0 to 3 are accepted"); if (r == 0) v_assert(m.type == a, "type");
    b = v_int(0, 0x7fffffff); c = v_int(0, 0x7fffffff); r = coap_msg_set_code(&m, b, c); v_assert((r == 0) == (b < 8 && c < 32), "codes 0.00 to 7.31 are accepted"); if (r == 0) v_assert(m.code_class == b && m.code_detail == c, "code");
    d = v_int(0, 0x7fffffff); r = coap_msg_set_msg_id(&m, d); v_assert((r == 0) == (d < 65536), "16 bit message ids are accepted"); if (r == 0) v_assert(m.msg_id == d, "message id");
    n = v_long(0, 1000); t = v_cbuf(n); r = coap_msg_set_token(&m, t, n); v_assert((r == 0) == (n <= 8), "tokens of at most 8 bytes are accepted"); if (r == 0) v_assert(m.token_len == n && v_equal(m.token, t, n), "token"); else v_assert(m.token_len == 0, "a refused token changes nothing");
    l1 = v_long(0, 3000); p1 = v_cbuf(l1);
    r = coap_msg_set_payload(&m, p1, l1);
    if (r == 0) { v_reach("first payload"); v_assert(m.payload_len == l1, "payload length"); if (l1) v_assert(v_equal(m.payload, p1, l1), "payload"); else v_assert(m.payload == NULL, "an empty payload holds no block"); }
    else v_assert(m.payload == NULL && m.payload_len == 0, "a refused payload leaves none");
    l1 = v_long(0, 3000); p1 = v_cbuf(l1);
    if (v_choice(2)) { r = coap_msg_set_payload(&m, p1, l1); if (r == 0 && l1) { v_reach("replaced payload"); v_assert(m.payload_len == l1 && v_equal(m.payload, p1, l1), "replaced payload"); } }
    else { coap_msg_clear_payload(&m); v_assert(m.payload == NULL && m.payload_len == 0, "cleared payload"); }
    if (v_choice(2)) coap_msg_reset(&m); else coap_msg_destroy(&m);
    v_assert(m.op_list.first == NULL && m.payload == NULL && m.payload_len == 0 && m.token_len == 0, "reset empties a message");
    v_assert_noleak("every block is returned");
    return 0;
}
