/* pre-included for ringbuf.c: waiting loops end the explored schedule (the awaited producer is suspended), every access to shared
 * memory is a point at which another thread may run (the driver rewrites X->field into (*(vp_y(), &(X->field)))) */
#include "ringbuf_utils.h"
#include "vp.h"
#undef SPINLOCK_BACKOFF
#define SPINLOCK_BACKOFF(c) vp_spin()
void vp_spin(void);
int vp_y(int);
extern int vp_hold;
/* one indivisible step, written so that the engine sees a plain comparison and assignment */
#undef atomic_compare_exchange_weak
#define atomic_compare_exchange_weak(ptr, expected, desired) ({ int ok_; vp_y(0); vp_hold = 1; ok_ = *(ptr) == *(expected); if (ok_) *(ptr) = (desired); vp_hold = 0; ok_; })
/* a field of a worker record, the record selected by comparison so that each stays a separate variable */
#define VP_WI(w, i, f, rest) ((w) == &vp_r.workers[i] ? &vp_r.workers[i].f : rest)
#if VP_NTEMP == 1
#define VP_W(w, f) (&vp_r.workers[0].f)
#elif VP_NTEMP == 2
#define VP_W(w, f) VP_WI(w, 0, f, &vp_r.workers[1].f)
#else
#define VP_W(w, f) VP_WI(w, 0, f, VP_WI(w, 1, f, &vp_r.workers[2].f))
#endif
