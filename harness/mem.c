/* The pool allocator hands out only free blocks, inside the pool, and a release makes exactly that block free again,
 * from every occupancy of the pool. */
#include "v.h"
#include "coap_mem.h"
#ifndef NUM
#define NUM 16
#endif
static unsigned char old[NUM / 8], now[NUM / 8];
static void snap(unsigned char *d, coap_mem_t *m) { int i; for (i = 0; i < NUM / 8; i++) d[i] = m->active[i]; }
int harness(void)
{
    coap_mem_t m; size_t len, n, off; char *p, *q; int r, i; unsigned idx;
    len = v_long(0, 1 << 20);
    r = coap_mem_create(&m, NUM, len);
    if (r < 0) { v_reach("create refused"); v_assert_noleak("a failed create keeps nothing"); v_stop(); }
    v_assert(len > 0, "a pool of empty blocks is refused");
    v_assert(coap_mem_get_num(&m) == NUM && coap_mem_get_len(&m) == len, "pool geometry");
    v_assert(v_objsize(m.buf) >= (long)(NUM * len), "the pool holds all blocks");
    snap(now, &m);
    for (i = 0; i < NUM / 8; i++) v_assert(now[i] == 0, "a new pool is empty");
    v_havoc(m.active, NUM / 8);               /* any occupancy */
    snap(old, &m);
    n = v_long(0, 1 << 21);
    p = coap_mem_alloc(&m, n);
    snap(now, &m);
    if (p == NULL)
    {
        v_reach("alloc refused");
        if (n <= len) for (i = 0; i < NUM / 8; i++) v_assert(old[i] == 0xff, "a request that fits is refused only by a full pool");
        for (i = 0; i < NUM / 8; i++) v_assert(now[i] == old[i], "a refused request changes nothing");
    }
    else
    {
        v_reach("allocated");
        v_assert(n <= len, "a request larger than a block is refused");
        v_assert(v_same_obj(p, m.buf), "the block lies in the pool");
        off = p - m.buf;
        for (idx = 0; idx < NUM; idx++) if (off == idx * len) break;
        v_assert(idx < NUM, "the result is the start of a block");
        v_split(idx);
        v_assert(((old[idx / 8] >> (idx % 8)) & 1) == 0, "only a free block is handed out");
        for (i = 0; i < NUM / 8; i++) v_assert(now[i] == (unsigned char)(old[i] + (i == (int)(idx / 8) ? 1 << (idx % 8) : 0)), "exactly that block becomes occupied");
        v_writable(p, n);
        coap_mem_free(&m, p);
        snap(now, &m);
        for (i = 0; i < NUM / 8; i++) v_assert(now[i] == old[i], "a release makes exactly that block free");
    }
    coap_mem_destroy(&m);
    v_assert_noleak("destroy releases the pool");
    return 0;
}
