/* Block option values: encode and decode are inverse on the whole domain, everything else is refused. */
#include "v.h"
#include "coap_msg.h"
int harness(void)
{
    unsigned num, more, size, n2, m2, s2, len, szx, want; unsigned char *b; int r; unsigned long v;
    if (v_choice(2))
    {
        /* encode */
        num = v_int(0, 0x7fffffff); more = v_int(0, 3); len = v_choice(6);
        size = v_int(0, 4096);
        b = v_ubuf(len);
        r = coap_msg_op_format_block_val((char *)b, len, num, more, size);
        szx = size == 16 ? 0 : size == 32 ? 1 : size == 64 ? 2 : size == 128 ? 3 : size == 256 ? 4 : size == 512 ? 5 : size == 1024 ? 6 : 7;
        if (len < 1 || len > 3 || szx == 7 || num >= (len == 1 ? 16u : len == 2 ? 4096u : 1048576u))
        {
            v_reach("encode refused");
            v_assert(r < 0, "values that cannot be represented are refused");
            v_stop();
        }
        v_reach("encoded");
        v_assert(r == (int)len, "the value length is returned");
        v = len == 1 ? b[0] : len == 2 ? 256 * b[0] + b[1] : 65536 * b[0] + 256 * b[1] + b[2];
        v_split(szx); v_split(more != 0);
        v_assert(v == 16 * (unsigned long)num + (more ? 8 : 0) + szx, "the encoded value is NUM*16 + M*8 + SZX");
        r = coap_msg_op_parse_block_val(&n2, &m2, &s2, (char *)b, len);
        v_assert(r == 0, "an encoded value decodes");
        v_assert(n2 == num, "block number"); v_assert(m2 == (more != 0), "more flag"); v_assert(s2 == size, "block size");
    }
    else
    {
        len = v_choice(6);
        b = v_cbuf(len);
        r = coap_msg_op_parse_block_val(&n2, &m2, &s2, (char *)b, len);
        if (len > 3) { v_reach("decode refused"); v_assert(r < 0, "a value longer than three bytes is refused"); v_stop(); }
        v = len == 0 ? 0 : len == 1 ? b[0] : len == 2 ? 256 * b[0] + b[1] : 65536 * b[0] + 256 * b[1] + b[2];
        szx = len ? b[len - 1] & 7 : 0;
        if (szx == 7) { v_reach("reserved size"); v_assert(r < 0, "the reserved block size is refused"); v_stop(); }
        v_assert(r == 0, "a valid value is accepted");
        v_reach("decoded");
        v_split(szx); want = 16u << szx;
        v_assert(s2 == want, "block size is 2^(SZX+4)");
        v_assert(m2 == (len ? (b[len - 1] >> 3) & 1 : 0), "more flag");
        v_assert(n2 == (v >> 4), "block number");
    }
    return 0;
}
