/* P14: the real pool; the solver picks who runs next whenever a worker waits, finishes a task or is about to take the lock, and during a shutdown's joins.
 * Giving way is modelled by leaving the thread function (shadow/pool_pre.h): a worker has no state outside the pool there, so calling the function again continues it. */
#include "vp.h"
#include <pthread.h>
#include "pool.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef AGAIN
#define AGAIN 0
#endif
#ifndef CREATE_FAIL
#define CREATE_FAIL 0
#endif
enum { READY, WAITING, EXITED, RUNNING, ABSENT };
static threadpool_t *pool; static void *(*body)(void *); static void *body_arg;
static int st[NW]; static bool sig[NW]; static int cur = -1;      /* cur: worker executing, -1 main */
static bool held, joining, finished, shut, graceful, in_create; static int created, depth, switches;
static int accepted, started, arg[8]; static int ops;

int vp_mutex_init(pthread_mutex_t *m, const void *a) { (void)m; (void)a; return 0; }
static bool held;
int vp_mutex_destroy(pthread_mutex_t *m) { (void)m; held = false; return 0; }
int vp_cond_init(pthread_cond_t *c, const void *a) { (void)c; (void)a; return 0; }
int vp_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int vp_attr_init(pthread_attr_t *a) { (void)a; return 0; }
int vp_attr_destroy(pthread_attr_t *a) { (void)a; return 0; }
int vp_attr_setstacksize(pthread_attr_t *a, size_t n) { (void)a; (void)n; return 0; }
static bool resume; static int laps;
/* nonzero: the calling worker gives way here */
int vp_pause(void) { if (cur < 0) return 0; return laps++ > 0; }
int vp_mutex_lock(pthread_mutex_t *m) { (void)m; vp_assert(!held, "nobody keeps the lock of the pool"); held = true; return 0; }
int vp_mutex_unlock(pthread_mutex_t *m) { (void)m; vp_assert(held, "only a held lock is released"); held = false; return 0; }
int vp_cond_signal(pthread_cond_t *c) {
    (void)c; bool any = false; int w = -1;
    for (int i = 0; i < NW; i++) if (st[i] == WAITING && !sig[i] && (w < 0 || vp_bool())) w = i;
    for (int i = 0; i < NW; i++) if (i == w) sig[i] = true;
    (void)any; return 0;
}
int vp_cond_broadcast(pthread_cond_t *c) { (void)c; for (int i = 0; i < NW; i++) if (st[i] == WAITING) sig[i] = true; return 0; }
int vp_wait(void) {
    vp_assert(held && cur >= 0, "waiting needs the lock");
    if (resume) { resume = false; return 0; }
    held = false; for (int i = 0; i < NW; i++) if (i == cur) { st[i] = WAITING; sig[i] = false; }
    return 1;
}
int vp_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    (void)a; if (CREATE_FAIL == created + 1) return 11;
    for (int i = 0; i < NW; i++) if (i == created) st[i] = READY;
    *t = (pthread_t)(created++); body = f; body_arg = x; return 0;
}
void vp_exit(void *r) { (void)r; for (int i = 0; i < NW; i++) if (i == cur) st[i] = EXITED; vp_assert(!held, "a worker that ends holds no lock"); }
static void finish(void) {
    vp_assert(!held, "nobody keeps the lock of the pool");
    if (!shut) { vp_assert(started == accepted, "every accepted task is run"); }
    else if (graceful) { vp_assert(started == accepted, "a graceful shutdown runs every accepted task first"); vp_reach("graceful shutdown"); }
    else vp_reach("immediate shutdown");
    if (started > 0) vp_reach("tasks ran");
    if (started > 1) vp_reach("several tasks ran");
}
void submit(void);
void task(void *a) {
    vp_assert(a == &arg[started], "tasks are started in the order of their submission, each once, with their argument");
    vp_assert(started < accepted, "only accepted tasks are run");
    vp_assert(!(shut && !graceful), "an immediate shutdown starts no further task");
    vp_assert(!held, "a task is run without the lock of the pool");
    started++;
    int me = cur;
#if RESUBMIT
    if (accepted < NOPS && vp_bool()) { cur = -1; submit(); cur = me; }
#endif
    (void)me;
}
void submit(void) {
    bool full = accepted - started == QS, s = shut; int n = accepted;
    int r = threadpool_add(pool, task, &arg[n], 0);
    if (r == 0) { vp_assert(!full && !s, "a full or stopping pool refuses the task"); accepted = n + 1; }
    else { vp_assert((full && r == threadpool_queue_full) || (s && r == threadpool_shutdown), "a task is refused only by a full or stopping pool, with the matching error"); if (s) vp_reach("refused while stopping"); else vp_reach("refused when full"); }
}
/* continue worker k up to its next pause; after a wait it resumes behind the wait */
static void run(int k) {
    resume = false; for (int i = 0; i < NW; i++) if (i == k) { resume = st[i] == WAITING; st[i] = READY; sig[i] = false; }
    cur = k; laps = 0; body(body_arg); cur = -1; resume = false;
    vp_assert(!held, "nobody keeps the lock of the pool");
}
static int pick(bool spurious) { int j = -1; for (int i = 0; i < NW; i++) if ((st[i] == READY || (st[i] == WAITING && (sig[i] || spurious))) && (j < 0 || vp_bool())) j = i; return j; }
int vp_join(pthread_t t, void **r) {
    (void)r; int k = (int)t;
    for (int n = 0; n < JOINS; n++) {
        bool gone = false;
        for (int i = 0; i < NW; i++) if (i == k && st[i] == EXITED) gone = true;
        if (gone) return 0;
        int j = pick(false);
        vp_assert(j >= 0, "shutting down wakes every worker");
        vp_assume(j >= 0);
#if RESUBMIT
        if (accepted < NOPS && vp_bool()) { bool h = held; held = false; submit(); held = h; }
#endif
        if (AGAIN && n == 0 && vp_bool()) {
            vp_assert(threadpool_destroy(pool, 0) == threadpool_shutdown, "a second shutdown is refused");
            vp_assert(!held, "nobody keeps the lock of the pool"); vp_reach("second shutdown");
        }
        run(j);
    }
    for (int i = 0; i < NW; i++) if (i == k) vp_assert(st[i] == EXITED, "shutting down ends every worker");
    return 0;
}
static void shutdown_op(bool g) {
    bool was = shut;
    if (!was) graceful = g;
    shut = true;
    int r = threadpool_destroy(pool, g ? threadpool_graceful : 0);
    vp_assert(was ? r == threadpool_shutdown : r == 0, "shutting down succeeds once");
    if (was) return;
    finished = true; finish();
    vp_assert(vp_live == 0, "the pool leaves nothing allocated");
    vp_assume(0);
}
void vp_main(void) {
    vp_fail_at = FAIL;
    for (int i = 0; i < NW; i++) st[i] = ABSENT;
    pool = threadpool_create(NW, QS, 65536, 0);
    if (pool == NULL) { vp_assert(FAIL || CREATE_FAIL, "creation fails only when memory or threads run out"); vp_assert(vp_live == 0, "a failed creation leaves nothing allocated"); vp_assert(!held, "nobody keeps the lock of the pool"); vp_reach("creation failed"); return; }
    if (FAIL || CREATE_FAIL) return;
    vp_assert(threadpool_add(NULL, task, NULL, 0) == threadpool_invalid && threadpool_add(pool, NULL, NULL, 0) == threadpool_invalid, "a missing pool or task is refused");
    vp_assert(created == NW, "the asked number of workers is started");
    for (int n = 0; n < STEPS; n++) {
        int j = pick(SPURIOUS);
        if (j >= 0 && vp_bool()) run(j); else if (ops < NOPS) { ops++; submit(); }
    }
    if (STOP) shutdown_op(STOP == 2);
    else {
        for (int n = 0; n < NOPS + NW + 1; n++) { int j = pick(false); if (j >= 0) run(j); }
        vp_assert(pick(false) < 0, "harness: the remaining rounds are enough");
        finish();
    }
}
