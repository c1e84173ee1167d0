/* P16/P17: the real connection table and teardown. Locks, sockets, TLS and plug-ins are the harness's; the vendored hash table is replaced by its contract.
 * MODE 0: histories of table operations chosen by the solver; MODE 1: teardown of one connection holding everything it may hold; MODE 2: job counter and disconnect flag. */
#include "vp.h"
#include "shadow/hash_pre.h"
#include <pthread.h>
#include <errno.h>
#include "session.h"
#include "frame.h"
#include "header.h"
#include "ssl.h"
#include "error.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef LOCKFAIL
#define LOCKFAIL 0
#endif
extern wss_session_t *volatile sessions; extern pthread_rwlock_t lock;
static int rd, wr, destroyed, inits, initcalls, lockcalls; static bool iter;
static void vp_hread(void) { vp_assert(rd > 0 || wr, "the table is read with its lock held"); }
static void vp_hwrite(void) { vp_assert(wr == 1, "the table is changed only by a thread that has it for itself"); }
#include "hash_model.h"
/* lock models */
static bool lf(void) { lockcalls++; return LOCKFAIL == lockcalls; }
int vp_rwlock_rdlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr, "the table's lock is free for reading"); if (lf()) return EAGAIN; rd++; return 0; }
int vp_rwlock_wrlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr && !rd, "the table's lock is free"); if (lf()) return EDEADLK; wr = 1; return 0; }
int vp_rwlock_unlock(pthread_rwlock_t *l) { vp_assert(l == &lock && (wr || rd), "only a held lock is released"); if (wr) wr = 0; else rd--; return 0; }
int vp_rwlock_init(pthread_rwlock_t *l, const void *a) { (void)l; (void)a; return 0; }
int vp_rwlock_destroy(pthread_rwlock_t *l) { (void)l; return 0; }
static int made; static bool ifail;
static bool fi(void) { initcalls++; if (INITFAIL && initcalls == INITFAIL) { ifail = true; return true; } return false; }
int vp_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { vp_assert(m != NULL, "a lock exists"); (void)a; if (fi()) return ENOMEM; made++; return 0; }
int vp_mutex_destroy(pthread_mutex_t *m) { vp_assert(m != NULL, "a lock exists"); made--; return 0; }
int vp_mutexattr_init(pthread_mutexattr_t *a) { (void)a; made++; return 0; }
int vp_mutexattr_settype(pthread_mutexattr_t *a, int t) { vp_assert(a != NULL && t == PTHREAD_MUTEX_RECURSIVE, "the connection's lock may be taken again by its holder"); return fi() ? EINVAL : 0; }
int vp_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; made--; return 0; }
static wss_session_t one; static int jl, dl; static int waits, signals;
int vp_mutex_lock(pthread_mutex_t *m) {
    if (MODE == 2) { if (lf()) return EINVAL; if (m == &one.lock_jobs) { vp_assert(!jl, "free"); jl = 1; } else { vp_assert(m == &one.lock_disconnecting && !dl, "free"); dl = 1; } }
    return 0;
}
int vp_mutex_unlock(pthread_mutex_t *m) {
    if (MODE == 2) { if (m == &one.lock_jobs) { vp_assert(jl, "only a held lock is released"); jl = 0; } else { vp_assert(m == &one.lock_disconnecting && dl, "only a held lock is released"); dl = 0; } }
    return 0; }
int vp_cond_signal(pthread_cond_t *c) { vp_assert(c == &one.cond_jobs && jl, "the waiter of this connection"); signals++; return 0; }
int vp_cond_broadcast(pthread_cond_t *c) { return vp_cond_signal(c); }
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { vp_assert(c == &one.cond_jobs && m == &one.lock_jobs && jl, "waiting needs the lock"); vp_assert(one.jobs > 0, "nobody waits for nothing"); waits++; if (vp_bool() || waits > 3) one.jobs--; return 0; }
static int closed_fd[4], nclosed;
int vp_close(int fd) { vp_assert(nclosed < 4, "descriptors are closed once"); closed_fd[nclosed++] = fd; if (vp_bool()) { errno = EIO; return -1; } return 0; }
static int ssl_free, ext_close[2], proto_close;
wss_error_t WSS_session_ssl_free(wss_session_t *s, pthread_rwlock_t *l) { (void)l; vp_assert(s->ssl != NULL, "TLS state exists"); vp_assert(nclosed == 0, "TLS is shut down before the socket is closed"); ssl_free++; s->ssl = NULL; return vp_bool() ? WSS_SSL_SHUTDOWN_ERROR : WSS_SUCCESS; }

#if MODE == 0
static wss_session_t *cur[3]; static int seen[3]; static int visits;
static void visit(wss_session_t *s) { visits++; for (int i = 0; i < 3; i++) if (cur[i] && s == cur[i]) seen[i]++; }
static const int FDS[3] = { 5, 6, 7 };
static void check_all(void) {
    vp_assert(!rd && !wr, "no lock stays held");
    for (int i = 0; i < 3; i++) { wss_session_t *s = WSS_session_find(FDS[i]); if (!(LOCKFAIL && lockcalls == LOCKFAIL)) vp_assert(s == cur[i], "a lookup gives the live connection of the descriptor, or nothing"); vp_assert(!rd && !wr, "no lock stays held"); }
}
#endif
void vp_main(void) {
    vp_fail_at = FAIL;
#if MODE == 0
    static const int OPS[] = { OPLIST }; int live = 0;
    for (int n = 0; n < (int)(sizeof OPS / sizeof *OPS); n++) {
        int op = OPS[n] >= 0 ? OPS[n] : (int)vp_range(0, 3); uint32_t w = vp_range(0, 2); int base_made = made; bool lf0 = LOCKFAIL && lockcalls < LOCKFAIL;
        (void)base_made; (void)lf0;
        int which = (int)w, fd = FDS[0]; for (int i = 0; i < 3; i++) if (i == which) fd = FDS[i];
        wss_session_t *have = NULL; for (int i = 0; i < 3; i++) if (i == which) have = cur[i];
        if (op == 0) {
            bool f0 = FAIL && vp_alloc_calls < FAIL;
            wss_session_t *s = WSS_session_add(fd, "10.0.0.7", 80 + n);
            bool oom = f0 && vp_alloc_calls >= FAIL, lk = lf0 && lockcalls >= LOCKFAIL;
            if (have != NULL) vp_assert(s == NULL || lk, "a descriptor that is present is refused");
            else if (oom || lk || ifail) { vp_assert(s == NULL || lk, "a failed addition is reported"); vp_assert(made == base_made || s != NULL, "and leaves no lock behind"); }
            else vp_assert(s != NULL, "a new connection is added");
            ifail = false;
            if (have != NULL && s != NULL) vp_assume(0);
            if (s != NULL) {
                live++;
                for (int i = 0; i < 3; i++) if (i == which) cur[i] = s;
                vp_assert(s->fd == fd && s->port == 80 + n, "the connection has its descriptor and port");
                for (int k = 0; k < 9; k++) vp_assert(s->ip[k] == "10.0.0.7"[k], "the connection has its address");
                vp_assert(s->jobs == 0 && !s->handshaked && !s->closing && !s->disconnecting && s->header == NULL && s->ssl == NULL && s->messages_count == 0 && s->frames_length == 0, "a new connection is fresh");
                vp_reach("added");
            } else if (have) vp_reach("duplicate refused");
        } else if (op == 1) {
            if (have == NULL) continue;
            bool viaall = vp_bool(); (void)viaall;
            int c0 = nclosed;
            wss_error_t e = WSS_session_delete(have);
            bool lk = lf0 && lockcalls >= LOCKFAIL;
            if (lk) vp_assert(e == WSS_SESSION_LOCK_ERROR && nclosed == c0, "without the table nothing is removed");
            else { vp_assert(e == WSS_SUCCESS && nclosed == c0 + 1 && closed_fd[c0] == fd, "removing a connection closes its descriptor once"); for (int i = 0; i < 3; i++) if (i == which) cur[i] = NULL; live--; vp_reach("removed"); }
        } else if (op == 2) {
            visits = 0; seen[0] = seen[1] = seen[2] = 0;
            wss_error_t e = WSS_session_all(visit);
            if (e == WSS_SUCCESS) { for (int i = 0; i < 3; i++) vp_assert(seen[i] == (cur[i] != NULL), "each live connection is visited once"); vp_assert(visits == live, "nothing else is visited"); if (live > 1) vp_reach("visited several"); }
            else vp_assert(lf0 && visits == 0, "only without the table nothing is visited");
        } else {
            int c0 = nclosed;
            wss_error_t e = WSS_session_delete_all();
            if (e == WSS_SUCCESS) { vp_assert(nclosed == c0 + live, "every descriptor is closed"); cur[0] = cur[1] = cur[2] = NULL; live = 0; vp_assert(sessions == NULL && made == 0 && vp_live == 0, "nothing is left"); vp_reach("removed all"); }
            else vp_assert(lf0, "only without the table nothing is removed");
        }
        check_all();
        vp_assert(made == 4 * live, "each live connection has its three locks and their attributes, nothing else has");
        vp_assert(vp_live == 2 * live, "a live connection holds its record and address, nothing else is allocated");
    }
#elif MODE == 1
    wss_session_t *s = WSS_session_add(5, "10.0.0.7", 80), *t = WSS_session_add(6, "1.1", 2);
    vp_assume(s != NULL && t != NULL);
    static wss_subprotocol_t proto; static wss_extension_t ext;
    extern void px_close(int); extern void ex_close(int); proto.close = px_close; ext.close = ex_close;
    int hdr = HDR < 0 ? (int)vp_range(0, 3) : HDR, hold = HOLD < 0 ? (int)vp_range(0, 15) : HOLD, tls = TLS < 0 ? vp_bool() : TLS;
    s->header = NULL;
    if (hdr > 0) {
        wss_header_t *hd = vp_track(vp_raw0(sizeof(wss_header_t))); s->header = hd;
        if (hdr > 1) { hd->content = vp_track(vp_raw0(4)); hd->ws_protocol = &proto; }
        if (hdr > 2) {
            hd->ws_extensions = vp_track(vp_raw0(2 * sizeof(wss_ext_t *))); hd->ws_extensions_count = 2;
            for (int i = 0; i < 2; i++) { wss_ext_t *x = vp_track(vp_raw0(sizeof *x)); x->ext = &ext; x->name = vp_track(vp_raw0(2)); x->accepted = i ? vp_track(vp_raw0(2)) : NULL; hd->ws_extensions[i] = x; }
        }
    }
    if (hold & 1) { s->pong = vp_track(vp_raw0(4)); s->pong_length = 4; s->payload = vp_track(vp_raw0(9)); s->payload_length = 9; s->offset = 2; }
    if (hold & 2) {
        wss_frame_t **fs = vp_track(vp_raw0(2 * sizeof(wss_frame_t *))); s->frames = fs; s->frames_length = 2;
        for (int i = 0; i < 2; i++) { wss_frame_t *f = vp_track(vp_raw0(sizeof *f)); f->payload = i || !(hold & 8) ? vp_track(vp_raw0(3)) : NULL; f->payloadLength = f->applicationDataLength = 3; fs[i] = f; }
    }
    if (hold & 4) {
        wss_message_t **ms = vp_track(vp_raw0(3 * sizeof(wss_message_t *))); s->ringbuf = vp_track(vp_raw0(16)); s->messages = ms; s->messages_count = 3;
        for (int i = 0; i < 3; i++) if (i != 1) { wss_message_t *m = vp_track(vp_raw0(sizeof *m)); m->msg = vp_track(vp_raw0(4)); m->length = 4; ms[i] = m; }
    }
    if (tls) s->ssl = s;
    s->state = CLOSING; s->disconnecting = vp_bool();
    wss_error_t e = WHOLE ? WSS_session_delete_all() : WSS_session_delete(s);
    vp_assert(e == WSS_SUCCESS, "removal succeeds");
    vp_assert(nclosed == 1 + WHOLE && (closed_fd[0] == 5 || closed_fd[1] == 5), "the descriptor is closed once");
    vp_assert(ssl_free == tls, "TLS state is released once");
    vp_assert(ext_close[0] == (hdr > 2 ? 2 : 0), "each negotiated extension is told once"); vp_assert(proto_close == (hdr > 1 ? 1 : 0), "the subprotocol is told once");
    vp_assert(!rd && !wr, "no lock stays held");
    vp_assert(WSS_session_find(5) == NULL, "the connection is no longer found"); vp_assert(WSS_session_find(6) == (WHOLE ? NULL : t), "others stay");
    vp_assert(vp_live == (WHOLE ? 0 : 2), "everything the connection held is released");
    vp_assert(made == (WHOLE ? 0 : 4), "its locks are gone, others stay"); vp_reach("removed");
#else
    one.fd = 5; one.jobs = (int)vp_range(0, 3); int j0 = one.jobs; uint32_t op = vp_range(0, 3); one.disconnecting = vp_bool(); bool d0 = one.disconnecting;
    wss_error_t e; bool dc = vp_bool();
    if (op == 0) { e = WSS_session_jobs_inc(&one); vp_assert(LOCKFAIL ? e == WSS_SESSION_LOCK_ERROR && one.jobs == j0 : e == WSS_SUCCESS && one.jobs == j0 + 1, "starting a job counts one"); vp_reach("inc"); }
    else if (op == 1) { vp_assume(j0 > 0); e = WSS_session_jobs_dec(&one); if (LOCKFAIL) vp_assert(e == WSS_SESSION_LOCK_ERROR && one.jobs == j0, "a failing lock is reported"); else { vp_assert(e == WSS_SUCCESS && one.jobs == j0 - 1, "ending a job counts one"); vp_assert(j0 > 1 || signals == 1, "the end of the last job wakes who waits for it"); vp_reach("dec"); } }
    else if (op == 2) { e = WSS_session_jobs_wait(&one); if (LOCKFAIL) vp_assert(e == WSS_SESSION_LOCK_ERROR, "a failing lock is reported"); else { vp_assert(e == WSS_SUCCESS && one.jobs == 0, "waiting ends when no job runs, in spite of spurious wake-ups"); if (waits > 1) vp_reach("waited"); } }
    else {
        e = WSS_session_is_disconnecting(&one, &dc);
        if (LOCKFAIL) vp_assert(e == WSS_SESSION_LOCK_ERROR && dc, "a failing lock counts as disconnecting");
        else {
            vp_assert(e == WSS_SUCCESS && dc == d0 && one.disconnecting, "exactly the first caller disconnects"); bool dc2 = false;
            WSS_session_is_disconnecting(&one, &dc2); vp_assert(dc2, "exactly the first caller disconnects"); vp_reach("flag");
        }
    }
    vp_assert(!jl && !dl, "no lock stays held");
#endif
}
void px_close(int fd) { vp_assert(fd == 5 && nclosed == 0, "the subprotocol is told while the descriptor is open"); proto_close++; }
void ex_close(int fd) { vp_assert(fd == 5 && nclosed == 0, "the extension is told while the descriptor is open"); ext_close[0]++; }
