/* Releasing any block of any occupancy clears exactly its mark; foreign pointers change nothing. */
#include "v.h"
#include "coap_mem.h"
#define NUM 16
int harness(void)
{
    coap_mem_t m; size_t len; unsigned char o0, o1, n0, n1; int k, e0, e1;
    len = v_long(1, 1 << 20);
    if (coap_mem_create(&m, NUM, len) < 0) v_stop();
    v_havoc(m.active, 2);
    o0 = m.active[0]; o1 = m.active[1];
    k = v_choice(NUM + 1);
    if (k == NUM)
    {
        coap_mem_free(&m, v_buf(8));
        n0 = m.active[0]; n1 = m.active[1];
        v_reach("foreign");
        v_assert(n0 == o0 && n1 == o1, "releasing a pointer that is not a block changes nothing");
        return 0;
    }
    coap_mem_free(&m, m.buf + k * len);
    n0 = m.active[0]; n1 = m.active[1];
    e0 = o0; e1 = o1;
    if (k < 8) { if ((o0 >> k) & 1) e0 -= 1 << k; } else { if ((o1 >> (k - 8)) & 1) e1 -= 1 << (k - 8); }
    v_reach("released");
    v_assert(n0 == e0 && n1 == e1, "exactly the released block becomes free");
    return 0;
}
