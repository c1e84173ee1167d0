/* Verification runtime: the same harness is executed symbolically by CBMC and, with -DVP_REPLAY,
 * natively (gcc, sanitizers) on the concrete inputs of a solver counterexample. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

#ifdef VP_REPLAY
uint64_t vp_next(void);
void vp_assume_(int c, const char *w);
void vp_assert_(int c, const char *w);
void vp_reach_(const char *w);
#define vp_assume(c) vp_assume_(!!(c), #c)
#define vp_assert(c, msg) vp_assert_(!!(c), msg)
#define vp_reach(msg) vp_reach_(msg)
static inline uint8_t  vp_u8(void)  { return (uint8_t)vp_next(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_next(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_next(); }
static inline uint64_t vp_u64(void) { return vp_next(); }
static inline int      vp_int(void) { return (int)(int64_t)vp_next(); }
static inline bool     vp_bool(void){ return vp_next() & 1; }
#define VP_NATIVE 1
#else
uint8_t nondet_vp_u8(void); uint16_t nondet_vp_u16(void); uint32_t nondet_vp_u32(void);
uint64_t nondet_vp_u64(void); int nondet_vp_int(void); _Bool nondet_vp_bool(void);
#define vp_assume(c) __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert(c, "vp: " msg)
#define vp_reach(msg) __CPROVER_assert(0, "reach: " msg)
static inline uint8_t  vp_u8(void)  { uint8_t  v = nondet_vp_u8();  __CPROVER_input("vp", v); return v; }
static inline uint16_t vp_u16(void) { uint16_t v = nondet_vp_u16(); __CPROVER_input("vp", v); return v; }
static inline uint32_t vp_u32(void) { uint32_t v = nondet_vp_u32(); __CPROVER_input("vp", v); return v; }
static inline uint64_t vp_u64(void) { uint64_t v = nondet_vp_u64(); __CPROVER_input("vp", v); return v; }
static inline int      vp_int(void) { int      v = nondet_vp_int(); __CPROVER_input("vp", v); return v; }
static inline bool     vp_bool(void){ _Bool    v = nondet_vp_bool();__CPROVER_input("vp", v); return v; }
#define VP_NATIVE 0
#endif

/* value in [lo,hi] */
static inline uint32_t vp_range(uint32_t lo, uint32_t hi) { uint32_t v = vp_u32(); vp_assume(v >= lo && v <= hi); return v; }

/* exact-size heap buffers owned by the harness (not counted as allocations of the code under test) */
void *vp_raw(size_t n);          /* uninitialised, n may be 0 */
void *vp_raw0(size_t n);         /* zeroed */
char *vp_bytes(size_t n);        /* n arbitrary bytes, n concrete */
char *vp_str(size_t n);          /* NUL-terminated, n arbitrary non-NUL bytes, n concrete */
char *vp_lit(const char *s);     /* heap copy of a literal */

/* allocation accounting of the code under test (see shadow/alloc.h) */
extern long vp_live;             /* live blocks obtained through the allocation API */
extern long vp_alloc_calls;
extern long vp_fail_at;          /* if > 0: the vp_fail_at-th allocation fails (returns NULL) */
int   vp_should_fail(void);
void *vp_track(void *p);
void  vp_free(void **pp);
void  vp_release(void *p);       /* forget a live block on behalf of its owner and free it */
void *vp_realloc(void **pp, size_t o, size_t n, void *fresh);
void *vp_realloc_any(void **pp, size_t o, size_t n, void *fresh, const char *expr);
void *vp_realloc_typed(void **pp, size_t o, size_t n, void *fresh);
void *vp_alloc_n(size_t n);

void vp_main(void);
#endif
