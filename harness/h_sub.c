/* P22: the real echo and broadcast plug-ins under histories chosen by the solver. The send callback records; locks are counted and another
 * connection may come or go at any moment the plug-in takes its lock; the vendored hash table is replaced by its contract.
 * WHICH 0: echo, 1: broadcast. */
#include "vp.h"
#include "shadow/hash_pre.h"
#include <pthread.h>
#include <errno.h>
#include "subprotocol.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef LOCKFAIL
#define LOCKFAIL 0
#endif
#ifndef NEST
#define NEST 0
#endif
void onInit(char *config, WSS_send s); void setAllocators(WSS_malloc_t, WSS_realloc_t, WSS_free_t);
void onConnect(int fd, char *ip, int port, char *path, char *cookies); void onMessage(int fd, wss_opcode_t opcode, char *message, size_t message_length);
void onWrite(int fd, char *message, size_t message_length); void onClose(int fd); void onDestroy(void);
static int rd, wr, lockcalls, nested, depth; static bool lost;
static void vp_hread(void) { vp_assert(rd > 0 || wr, "the list of clients is read with its lock held"); }
static void vp_hwrite(void) { vp_assert(wr == 1, "the list of clients is changed only by a thread that has it for itself"); }
#include "hash_model.h"
#define NC 3
static const int FDS[NC + 1] = { 5, 6, 7, 9 };  /* 9 never connects */
static bool in[NC], touched[NC], unk[NC];  /* unk: a lock failed while this client came or went */
static int busy = -1;  /* the connection the outer operation belongs to: its own callbacks do not run at the same time */
static char *req;
static void connect_(int i) { for (int k = 0; k < NC; k++) if (k == i) { onConnect(FDS[k], req, 80, req, req); in[k] = true; touched[k] = true; } }
static void close_(int i) { for (int k = 0; k < NC; k++) if (k == i) { onClose(FDS[k]); in[k] = false; touched[k] = true; } }
static bool lf(void) { lockcalls++; if (LOCKFAIL == lockcalls) { lost = true; return true; } return false; }
static void other(void) {
    if (!NEST || depth || rd || wr || nested >= NEST) return;
    depth = 1; nested++;
    int who = (int)vp_range(0, NC - 1);
    if (vp_bool()) { if (who != busy && who < NC) { bool is = false; for (int k = 0; k < NC; k++) if (k == who) is = in[k]; if (is) close_(who); else connect_(who); } }
    depth = 0;
}
int vp_rwlock_rdlock(pthread_rwlock_t *l) { (void)l; other(); vp_assert(!wr, "the lock is free for reading"); if (lf()) return EAGAIN; rd++; return 0; }
int vp_rwlock_wrlock(pthread_rwlock_t *l) { (void)l; other(); vp_assert(!wr && !rd, "the lock is free"); if (lf()) return EDEADLK; wr = 1; return 0; }
int vp_rwlock_unlock(pthread_rwlock_t *l) { (void)l; vp_assert(wr || rd, "only a held lock is released"); if (wr) wr = 0; else rd--; return 0; }
int vp_rwlock_init(pthread_rwlock_t *l, const void *a) { (void)l; (void)a; return 0; }
int vp_rwlock_destroy(pthread_rwlock_t *l) { (void)l; vp_assert(!wr && !rd, "a held lock is not destroyed"); return 0; }
int vp_mutex_lock(pthread_mutex_t *l) { return vp_rwlock_wrlock((pthread_rwlock_t *)l); }
int vp_mutex_unlock(pthread_mutex_t *l) { return vp_rwlock_unlock((pthread_rwlock_t *)l); }
static int sent[NC + 1], nsent; static char *msg; static size_t mlen; static wss_opcode_t mop; static unsigned char copy[8];
static void snd(int fd, wss_opcode_t op, char *m, uint64_t len) {
    bool f = false;
    for (int i = 0; i <= NC; i++) if (FDS[i] == fd) { sent[i]++; f = true; }
    nsent++;
    vp_assert(f, "messages go to connections only");
    vp_assert(op == mop && len == mlen, "the message goes out with its opcode and length");
    for (int i = 0; i < (int)mlen && i < 8; i++) vp_assert((unsigned char)m[i] == copy[i], "the message goes out unchanged");
}
static bool oom; static long acalls;
static void *sub_malloc(size_t n) { acalls++; if (FAIL && acalls == FAIL) { oom = true; return NULL; } return vp_track(vp_raw(n)); }
static void *sub_realloc(void *p, size_t n) { (void)p; (void)n; vp_assert(0, "not used"); return NULL; }
static void sub_free(void *p) { vp_assert(p != NULL, "a client is released once"); void *q = p; vp_free(&q); }
void vp_main(void) {
    static const int OPS[] = { OPLIST };
    req = vp_str(1); msg = vp_bytes(MLEN); mlen = MLEN;
    for (int i = 0; i < MLEN; i++) copy[i] = (unsigned char)msg[i];
    setAllocators(sub_malloc, sub_realloc, sub_free); onInit(NULL, snd);
    vp_assert(nsent == 0, "nothing is sent at start");
    for (int n = 0; n < (int)(sizeof OPS / sizeof *OPS); n++) {
        int op = OPS[n] >= 0 ? OPS[n] : (int)vp_range(0, 3), who = (int)vp_range(0, NC);
        bool was[NC]; int l0 = lockcalls; bool o0 = oom, x0 = lost; int fd = 9; (void)l0;
        for (int i = 0; i < NC; i++) { was[i] = in[i]; touched[i] = false; } 
        for (int i = 0; i <= NC; i++) { sent[i] = 0; if (i == who) fd = FDS[i]; }
        nsent = 0; busy = who; mop = (int)vp_range(0, 15);
        if (op == 0) { if (who == NC) continue; connect_(who); for (int i = 0; i < NC; i++) if (i == who) { if (oom && !o0 && !was[i]) in[i] = false; if (lost && !x0) unk[i] = true; } vp_reach("connect"); }
        else if (op == 1) { if (who == NC) onClose(9); else { close_(who); if (lost && !x0) for (int i = 0; i < NC; i++) if (i == who) unk[i] = true; } vp_reach("close"); }
        else if (op == 2) {
            onMessage(fd, mop, msg, mlen);
            bool err = lost && !x0;
            int own = 0; for (int i = 0; i <= NC; i++) if (i == who) own = sent[i];
            if (WHICH == 0) vp_assert(own == 1, "the sender gets its message back, once"); else vp_assert(own == 0, "the sender does not get its own message");
            for (int i = 0; i < NC; i++) if (i != who) {
                if (WHICH == 0) vp_assert(sent[i] == 0, "nobody else gets it");
                else if (unk[i]) ; else if (!err && !touched[i]) vp_assert(sent[i] == (in[i] ? 1 : 0), "every other connected client gets the message exactly once");
                else vp_assert(sent[i] <= ((was[i] || in[i]) ? 1 : 0), "at most once");
            }
            if (who != NC) vp_assert(sent[NC] == 0, "nobody else gets it");
            if (nsent > WHICH) vp_reach("message delivered");
        } else { onWrite(fd, msg, mlen); vp_assert(nsent == 0, "nothing is sent"); }
        if (op != 2) vp_assert(nsent == 0, "only messages are sent on");
        for (int i = 0; i < MLEN; i++) vp_assert((unsigned char)msg[i] == copy[i], "the message is left as it was");
        vp_assert(!rd && !wr, "no lock stays held");
        int live = 0; for (int i = 0; i < NC; i++) live += in[i];
        if (WHICH == 0) live = 0;
        if (!lost) vp_assert(vp_live == live, "one record per connected client");
    }
    onDestroy();
    if (!lost) vp_assert(vp_live == 0, "nothing is left at the end");
    vp_assert(!rd && !wr, "no lock stays held");
}
