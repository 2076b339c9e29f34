#include <stdlib.h>
#include <string.h>
#include "v.h"
#include "data_buf.h"
/* any buffer: the invariant is count <= size <= max_size, with size + 1 bytes allocated */
static void inv(data_buf_t *b)
{
    v_assert(b->count <= b->size, "no more is stored than fits");
    v_assert(b->size <= b->max_size, "the size stays within its limit");
    v_readable(b->data, b->size);
    v_writable(b->data, b->size + 1);
    if (data_buf_get_space(b) > 0) { v_writable(data_buf_get_next(b), data_buf_get_space(b)); v_reach("has space"); }
}
static inline int eq(const char *a, const char *b, size_t n) { for (size_t k = 0; k < n; k++) if (a[k] != b[k]) return 0; return 1; }
void h_ops(void)
{
    data_buf_t b;
#ifdef SMALL
    size_t size = v_choice(5), max = v_choice(9);
#else
    size_t size = v_long(0, 1L << 40), max = v_long(0, 1L << 40);
#endif
    int r = data_buf_create(&b, size, max);
    if (r != 0) { v_assert(b.data == NULL && b.count == 0 && b.size == 0, "a refused buffer is empty"); data_buf_destroy(&b); v_assert_noleak("after a refused buffer"); v_stop(); }
    v_assert(size <= max, "a buffer is not larger than its limit");
    v_assert(b.size == size && b.count == 0 && b.max_size == max, "a new buffer is empty");
    inv(&b);
    v_reach("created");
    /* any content */
#ifdef SMALL
    b.count = v_choice(5);
    v_assume(b.count <= b.size);
    size_t old = b.count, osize = b.size, n = v_choice(7), k;
    char copy[8];
    for (k = 0; k < old; k++) b.data[k] = copy[k] = v_int(-128, 127);
#define same(a, b, n) eq(a, b, n)
#else
    b.count = v_long(0, 1L << 40);
    v_assume(b.count <= b.size);
    v_havoc(b.data, b.size);
    size_t old = b.count, osize = b.size, n = v_any(), k;
    char *copy = NULL;
#define same(a, b, n) ((void)(b), 1)
#endif
    switch (v_choice(3))
    {
    case 0:
        k = data_buf_add(&b, n);
        v_assert(k <= n && b.count == old + k && b.size == osize, "what is added is counted");
        v_assert(k == n || b.count == b.size, "only a full buffer refuses data");
        v_assert(same(b.data, copy, old), "the stored data is kept");
        v_reach("added");
        break;
    case 1:
        k = data_buf_consume(&b, n);
        v_assert(k <= n && k <= old && b.count == old - k && b.size == osize, "what is consumed is removed");
        v_assert(k == n || b.count == 0, "only an empty buffer has nothing to give");
        v_assert(same(b.data, copy + k, old - k), "the rest of the data moves to the front");
        v_reach("consumed");
        break;
    default:
        r = data_buf_expand(&b);
        v_assert(b.count == old && same(b.data, copy, old), "the stored data is kept");
        if (r == 0) { v_assert(b.size == 2 * osize, "the size is doubled"); v_reach("expanded"); }
        else v_assert(b.size == osize, "a refused expansion changes nothing");
    }
    inv(&b);
    data_buf_destroy(&b);
    v_assert_noleak("after destroying a buffer");
}
