/* P13 outgoing queue: the real ring buffer under NPROD producers (NTEMP worker records) and one consumer, ring of SPACE slots.
 * START slots were used before, so that the wrap-around is exercised; then NOPS operations chosen by the solver, then
 * (NEST > 0) the operations PRE and the operation OUTER, which at any of its accesses to shared memory (chosen by the solver, for each) is
 * interrupted by the NEST operations INNER of other threads, in this order. */
#include "vp.h"
#include <stdlib.h>
#include "ringbuf.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#ifndef START
#define START 0
#endif
#ifndef NEST
#define NEST 0
#endif
#ifndef LENMAX
#define LENMAX 1
#endif
enum { FREE, TAKEN, READY };
ringbuf_t *vp_ring(size_t need);
static ringbuf_t *rb;
static int slot[SPACE]; static int cpos;                 /* slot states, consumer position */
static ringbuf_worker_t *wk[NPROD]; static int phase[NPROD], at[NPROD], ln[NPROD]; static int busy[NPROD + 1];
static int accepted, taken, nested, depth;
static int holders(void) { int n = 0; for (int i = 0; i < NPROD; i++) if (phase[i] || busy[i]) n++; return n; }
static int occupied(void) { int n = 0; for (int i = 0; i < SPACE; i++) if (slot[i] != FREE) n++; return n; }

static void acquire(int p) {
    int l = 1, nest0 = nested, inside = depth;
#if LENMAX > 1
    l = (int)vp_range(1, LENMAX);
#endif
    int others = holders(); int occ = occupied(); bool outer_busy = false;
    for (int i = 0; i <= NPROD; i++) if (i != p && busy[i]) outer_busy = true;
    wk[p] = NULL; busy[p] = 1;
    ssize_t off = ringbuf_acquire(rb, &wk[p], (size_t)l);
    busy[p] = 0;
    if (off < 0) {
        vp_assert(off == -1, "a refused request returns -1");
        if (nest0 == nested && inside == depth && !outer_busy && LENMAX == 1) vp_assert(occ >= SPACE - 1 || others >= NTEMP, "a request is refused only when the queue is full");
        wk[p] = NULL; vp_reach("refused");
        return;
    }
    vp_assert((size_t)off + (size_t)l <= SPACE, "the slot lies inside the ring");
    for (int i = 0; i < SPACE; i++) if (i >= off && i < off + l) { vp_assert(slot[i] == FREE, "a slot is handed to one producer at a time and never overwritten before it was taken"); slot[i] = TAKEN; }
    at[p] = (int)off; ln[p] = l; phase[p] = 1; accepted += l;
}
static void produce(int p) {
    for (int i = 0; i < SPACE; i++) if (i >= at[p] && i < at[p] + ln[p]) slot[i] = READY;
    busy[p] = 1; phase[p] = 0;
    ringbuf_produce(rb, &wk[p]);
    busy[p] = 0;
}
static size_t consume(int all) {
    size_t off = 0;
    busy[NPROD] = 1;
    size_t n = ringbuf_consume(rb, &off);
    if (n > 0) {
        vp_assert(off + n <= SPACE, "the consumed range lies inside the ring");
#if LENMAX == 1
        vp_assert(off == (size_t)cpos, "slots are consumed in ring order, none skipped or repeated");
#endif
        size_t r = all ? n : vp_range(0, SPACE); vp_assume(r <= n);
        for (size_t i = 0; i < SPACE; i++) if (i >= off && i < off + n) vp_assert(slot[i] == READY, "only finished slots are consumed");
        for (size_t i = 0; i < SPACE; i++) if (i >= off && i < off + r) { slot[i] = FREE; taken++; }
        cpos = (int)((off + r) % SPACE);
        ringbuf_release(rb, r);
        n = r;
    }
    busy[NPROD] = 0;
    return n;
}
static void op(void) {
    unsigned a = vp_range(0, NPROD);
    vp_assume(!busy[a]);
    if (a == NPROD) consume(0);
    else for (int p = 0; p < NPROD; p++) if (a == (unsigned)p) { if (phase[p] == 0) acquire(p); else produce(p); }
}
void vp_spin(void) { vp_assume(depth > 0); vp_assume(0); }
/* operation codes: 10+p acquire, 20+p produce, 30 consume */
#ifndef PRE
#define PRE 0
#endif
#ifndef INNER
#define INNER 0
#endif
static const int pre[] = { PRE }, inner[] = { INNER };
static void run(int o) {
    if (o == 30) consume(0);
    for (int p = 0; p < NPROD; p++) { if (o == 10 + p && phase[p] == 0) acquire(p); if (o == 20 + p) { vp_assume(phase[p]); produce(p); } }
}
#ifndef WHERE
#define WHERE 3
#endif
int vp_hold;
int vp_y(int at_) {
#if NEST
    if (depth == 0 && !vp_hold && (at_ == 0 || (at_ & WHERE))) {
        for (int k = 0; k < NEST; k++)
            if (nested == k && vp_bool()) { depth = 1; nested++; run(inner[k]); depth = 0; }
    }
#endif
    return 0;
}
void vp_main(void) {
    size_t need; ringbuf_get_sizes(0, NTEMP, &need, NULL);
    rb = vp_ring(need); vp_assume(rb != NULL);
    depth = 1;
    vp_assert(ringbuf_setup(rb, 0, NTEMP, SPACE) == 0, "setup succeeds");
    for (int i = 0; i < START; i++) { acquire(0); vp_assert(phase[0] == 1, "a request is refused only when the queue is full"); produce(0); vp_assert(consume(1) == 1, "a finished slot is consumed"); }
#if NOPS > 0
    for (int i = 0; i < NOPS; i++) op();
#endif
#if NEST
    for (unsigned i = 0; i < sizeof pre / sizeof *pre; i++) run(pre[i]);
    depth = 0;
    run(OUTER);
    depth = 1;
    if (nested == NEST) vp_reach("preempted by all the inner operations");
#endif
    for (int p = 0; p < NPROD; p++) if (phase[p]) produce(p);
    for (int i = 0; i < 3; i++) consume(1);
    vp_assert(accepted == taken, "every accepted message is taken exactly once");
    vp_assert(occupied() == 0, "nothing stays behind");
    if (accepted > START) vp_reach("messages passed");
    if (accepted >= START + SPACE) vp_reach("the ring wrapped around");
}
#pragma CPROVER check pop
