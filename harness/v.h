/* Primitives understood by the abstract interpreter (engine/builtins.cpp). */
#ifndef V_H
#define V_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
int    v_int(int lo, int hi);              /* any value in [lo,hi] */
long   v_long(long lo, long hi);
int    v_choice(int n);                    /* partition: 0..n-1, kept apart */
long   v_any(void);
void   v_assume(int c);
void   v_assert(int c, const char *tag);
void   v_fail(const char *tag);            /* must be unreachable */
void   v_reach(const char *tag);           /* must be reachable (over-approximation) */
void   v_mark(const char *tag);            /* harness is alive up to here */
void   v_stop(void);
int    v_split(int x);                     /* partition on the value of x */
void  *v_buf(size_t n);                    /* n bytes of unknown content */
void  *v_ubuf(size_t n);                   /* n uninitialised bytes */
void  *v_cbuf(size_t n);                   /* n unknown bytes, read only */
char  *v_str(size_t maxlen);               /* any C string up to maxlen, exactly sized */
void  *v_alloc(size_t n, int tag);         /* owned block, must be released with the same tag */
void  *v_alloc_named(size_t n, int tag, const char *name);
void   v_release(void *p, int tag);
int    v_live(void);
int    v_live_tag(int tag);
void   v_assert_noleak(const char *tag);
int    v_is_live(const void *p);
long   v_objsize(const void *p);
long   v_objoff(const void *p);
int    v_equal(const void *a, const void *b, size_t n);  /* proved byte for byte equal */
int    v_same_obj(const void *a, const void *b);
int    v_is_init(const void *p, size_t n);
void   v_exact_loop(int rounds);
void   v_havoc(void *p, size_t n);
void   v_readable(const void *p, size_t n);
void   v_writable(void *p, size_t n);
void   v_dump(const char *tag, ...);
void   v_dumpstate(void);
#endif
