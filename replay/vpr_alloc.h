/* Included before every library source of a replay: lets a driver make one allocation fail. */
#ifndef VPR_ALLOC_H
#define VPR_ALLOC_H
#include <stdlib.h>
#include <string.h>
extern long vpr_fail_in; /* the n-th allocation from now fails (0: none) */
static inline int vpr_fails(void) { return vpr_fail_in > 0 && --vpr_fail_in == 0; }
static inline void* vpr_malloc(size_t n) { return vpr_fails() ? NULL : malloc(n); }
static inline void* vpr_realloc(void* p, size_t n) { return vpr_fails() ? NULL : realloc(p, n); }
static inline void* vpr_calloc(size_t a, size_t b) { return vpr_fails() ? NULL : calloc(a, b); }
#define malloc vpr_malloc
#define realloc vpr_realloc
#define calloc vpr_calloc
#endif
