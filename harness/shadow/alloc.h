/* Allocation boundary: the allocation API of the code under test is kept (declarations from the real header),
 * calls are redirected to exact-size, zero-filling, counted blocks (contract of the real wrappers, decided by its own property). */
#ifndef vp_shadow_alloc_h
#define vp_shadow_alloc_h
#include "../include/alloc.h"
#include "vp.h"
#undef WSS_free
#ifdef VP_REPLAY
#define WSS_malloc(n) vp_alloc_n(n)
#define WSS_calloc(m,n) vp_alloc_n((size_t)(m)*(n))
#define WSS_realloc(pp,o,n) vp_realloc((void **)(pp),(o),(n),NULL)
#else
#if defined(VP_CAP)   /* blocks whose size depends on the content: all have the same real size, zero beyond the requested one (harnesses check that it stays so) */
#define VP_SZ(n) VP_CAP
#elif defined(VP_BIG)
#define VP_SZ(n) ((n) > VP_BIG ? VP_BIG : (n))
#else
#define VP_SZ(n) (n)
#endif
#ifdef VP_CAP
#define VP_RSZ(n) VP_CAP
#else
#define VP_RSZ(n) ((n) ? (n) : 1)
#endif
#define WSS_malloc(n) (((n) == 0 || vp_should_fail()) ? (void *)0 : vp_track(__CPROVER_allocate(VP_SZ(n), 1)))
#define WSS_calloc(m,n) (((n) == 0 || (m) == 0 || vp_should_fail()) ? (void *)0 : vp_track(__CPROVER_allocate((m)*(n), 1)))
#define WSS_realloc(pp,o,n) vp_realloc_any((void **)(pp),(o),(n),__CPROVER_allocate(VP_RSZ(n), 1), #n)
#endif
#define WSS_free(pp) vp_free((void **)(pp))
#endif
