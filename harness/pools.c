/* Abstract pool allocators: any request of at most the pool's block size may
 * succeed or fail; every block is a distinct object of the pool's block size
 * that has to be given back to the pool it came from. */
#include "pools.h"
#ifndef POOL_MAY_FAIL
#define POOL_MAY_FAIL 1
#endif
size_t vp_small_len, vp_medium_len, vp_large_len;
int vp_small_limit, vp_small_live;
void vp_init(void)
{
#ifndef POOL_LARGE
#define POOL_LARGE 8192
#endif
#ifdef POOL_FIXED      /* concrete block sizes where a list of any length is folded into a summary */
    vp_small_len = 64; vp_medium_len = POOL_FIXED; vp_large_len = POOL_LARGE;
#else
    vp_small_len = v_long(0, 1 << 20);
    vp_medium_len = v_long(0, 1 << 20);
    vp_large_len = v_long(0, 1 << 20);
#endif
}
void *coap_mem_small_alloc(size_t len)
{
    if (len > vp_small_len) return NULL;
    if (POOL_MAY_FAIL && v_choice(2)) return NULL;
    if (vp_small_limit && ++vp_small_live > vp_small_limit) { v_fail("more options are decoded than the datagram contains"); v_stop(); }
    return v_alloc_named(vp_small_len, TAG_SMALL, "small pool block");
}
void *coap_mem_medium_alloc(size_t len)
{
    if (len > vp_medium_len) return NULL;
    if (POOL_MAY_FAIL && v_choice(2)) return NULL;
    return v_alloc_named(vp_medium_len, TAG_MEDIUM, "medium pool block");
}
void *coap_mem_large_alloc(size_t len)
{
    if (len > vp_large_len) return NULL;
    if (POOL_MAY_FAIL && v_choice(2)) return NULL;
    return v_alloc_named(vp_large_len, TAG_LARGE, "large pool block");
}
void coap_mem_small_free(void *p) { if (vp_small_limit) vp_small_live--; v_release(p, TAG_SMALL); }
void coap_mem_medium_free(void *p) { v_release(p, TAG_MEDIUM); }
void coap_mem_large_free(void *p) { v_release(p, TAG_LARGE); }
size_t coap_mem_small_get_len(void) { return vp_small_len; }
size_t coap_mem_medium_get_len(void) { return vp_medium_len; }
size_t coap_mem_large_get_len(void) { return vp_large_len; }
size_t coap_mem_small_get_num(void) { return v_long(1, 1 << 20); }
size_t coap_mem_medium_get_num(void) { return v_long(1, 1 << 20); }
size_t coap_mem_large_get_num(void) { return v_long(1, 1 << 20); }
