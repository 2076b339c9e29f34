/* FD_ZERO written as one memory operation instead of a loop (same effect) */
#include <sys/select.h>
#include <string.h>
#undef FD_ZERO
#define FD_ZERO(p) memset((p), 0, sizeof(fd_set))
