#ifndef POOLS_H
#define POOLS_H
#include "v.h"
#define TAG_SMALL 1
#define TAG_MEDIUM 2
#define TAG_LARGE 3
extern size_t vp_small_len, vp_medium_len, vp_large_len;
extern int vp_small_limit, vp_small_live;   /* limit > 0: at most that many small blocks may be live */
void vp_init(void);
#endif
