/* The global pools are independent, and creating them either succeeds completely or keeps nothing. */
#include "v.h"
#include "coap_mem.h"
int harness(void)
{
    size_t a = v_choice(2) ? 8 : 16, b = v_choice(2) ? 8 : 9, c = 8, la = v_long(0, 100), lb = v_long(1, 100), lc = v_long(0, 100);
    char *p, *q, *r;
    int ret = coap_mem_all_create(a, la, b, lb, c, lc);
    if (ret < 0) { v_reach("create refused"); v_assert_noleak("a failed create keeps nothing"); v_stop(); }
    v_assert(b == 8, "a number of blocks that is not a multiple of 8 is refused");
    v_assert(coap_mem_small_get_len() == la && coap_mem_medium_get_len() == lb && coap_mem_large_get_len() == lc, "pool geometry");
    v_assert(coap_mem_small_get_num() == a && coap_mem_medium_get_num() == b && coap_mem_large_get_num() == c, "pool sizes");
    p = coap_mem_small_alloc(v_long(0, 200)); q = coap_mem_medium_alloc(v_long(0, 200)); r = coap_mem_large_alloc(v_long(0, 200));
    if (p && q && r)
    {
        v_reach("allocated");
        v_assert(v_same_obj(p, coap_mem_small_get_buf()), "small requests are served by the small pool");
        v_assert(v_same_obj(q, coap_mem_medium_get_buf()), "medium requests are served by the medium pool");
        v_assert(v_same_obj(r, coap_mem_large_get_buf()), "large requests are served by the large pool");
        v_assert(!v_same_obj(p, q) && !v_same_obj(q, r) && !v_same_obj(p, r), "pools are disjoint");
        v_writable(p, la); v_writable(q, lb); v_writable(r, lc);
        coap_mem_small_free(p);
        v_assert(coap_mem_small_get_active()[0] == 0 && coap_mem_medium_get_active()[0] == 1 && coap_mem_large_get_active()[0] == 1, "a release affects its own pool only");
        coap_mem_medium_free(q); coap_mem_large_free(r);
        v_assert(coap_mem_medium_get_active()[0] == 0 && coap_mem_large_get_active()[0] == 0, "blocks are released to their pool");
    }
    coap_mem_all_destroy();
    v_assert_noleak("destroy releases the pools");
    return 0;
}
