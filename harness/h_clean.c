/* P24: one or two rounds of the real clean-up thread (server.c) over the real connection table (session.c), message sending (message.c) and frames (frame.c).
 * Clock, sockets, event layer, send loop, queue and locks are the harness's. NS connections whose age, state and kind the solver chooses. */
#include "vp.h"
#include "shadow/hash_pre.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <poll.h>
#include "worker.h"
#include "server.h"
#include "session.h"
#include "frame.h"
#include "header.h"
#include "message.h"
#include "ringbuf.h"
#include "event.h"
#include "error.h"
#include "ssl.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef EX
#define EX 0
#endif
#ifndef INTR
#define INTR 0
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef LOCKFAIL
#define LOCKFAIL 0
#endif
extern wss_servers_t servers; extern wss_server_state_t state; extern wss_session_t *volatile sessions; extern pthread_rwlock_t lock;
int close_pipefd[2] = { 50, 51 };
static wss_server_t plain, tls; static wss_config_t cfg;
#define FD0 7
static struct conn { wss_session_t *s; bool gone, busy, claimed, active; int held, heldj, heldd, protos, exts, removed, closes, pings, pingslot, direct, waits, ssl, jobs0; wss_message_t **slots; bool queued, full; unsigned wrote; } c[NS];
static int rd, wr, polls, fails; static struct timespec tnow; static long tmo, seen_timeout[ROUNDS + 1];
static void vp_hread(void) { vp_assert(rd > 0 || wr, "the table is read with its lock held"); }
static void vp_hwrite(void) { vp_assert(wr == 1, "the table is changed only by a thread that has it for itself"); }
#include "hash_model.h"
static int of(const void *p) { int r = -1; for (int i = 0; i < NS; i++) if ((const char *)p >= (const char *)c[i].s && (const char *)p < (const char *)(c[i].s + 1)) r = i; return r; }
#define EACH(i) for (int i = 0; i < NS; i++)
int vp_rwlock_rdlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr, "the table's lock is free for reading"); if (LOCKFAIL) { fails++; return EAGAIN; } rd++; return 0; }
int vp_rwlock_wrlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr && !rd, "the table's lock is free"); wr = 1; return 0; }
int vp_rwlock_unlock(pthread_rwlock_t *l) { vp_assert(l == &lock && (wr || rd), "only a held lock is released"); if (wr) wr = 0; else rd--; return 0; }
int vp_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int vp_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int vp_mutex_lock(pthread_mutex_t *m) {
    EACH(i) if (!c[i].gone) {
        if (m == &c[i].s->lock) { vp_assert(c[i].held || !c[i].busy || !rd, "the table is not kept locked while waiting for a busy connection"); c[i].held++; }
        if (m == &c[i].s->lock_jobs) { vp_assert(!c[i].heldj, "free"); c[i].heldj = 1; }
        if (m == &c[i].s->lock_disconnecting) { vp_assert(!c[i].heldd, "free"); c[i].heldd = 1; }
    }
    return 0;
}
int vp_mutex_trylock(pthread_mutex_t *m) { EACH(i) if (!c[i].gone && m == &c[i].s->lock && c[i].busy && !c[i].held) return EBUSY; return vp_mutex_lock(m); }
int vp_mutex_unlock(pthread_mutex_t *m) {
    EACH(i) if (!c[i].gone) {
        if (m == &c[i].s->lock) { if (!c[i].held) return EPERM; c[i].held--; }
        if (m == &c[i].s->lock_jobs) { vp_assert(c[i].heldj, "held"); c[i].heldj = 0; }
        if (m == &c[i].s->lock_disconnecting) { vp_assert(c[i].heldd, "held"); c[i].heldd = 0; }
    }
    return 0;
}
int vp_cond_signal(pthread_cond_t *q) { (void)q; return 0; }
int vp_cond_broadcast(pthread_cond_t *q) { (void)q; return 0; }
int vp_cond_wait(pthread_cond_t *q, pthread_mutex_t *m) {
    (void)q;
    EACH(i) if (!c[i].gone && m == &c[i].s->lock_jobs) {
        vp_assert(c[i].jobs0 > 0, "only jobs of others are waited for"); vp_assume(c[i].jobs0 > 0);
        vp_assert(!rd && !wr && !c[i].held, "no lock is held while waiting for jobs, they may need it");
        vp_assert(c[i].s->state == CLOSING, "whoever waits for the connection to be writable gives up before the connection waits for him");
        c[i].jobs0--; c[i].s->jobs--; c[i].waits++; c[i].busy = false;
    }
    return 0;
}
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; vp_assert(0, "the clean-up thread does not wait for a connection to become writable"); vp_assume(0); return 0; }
int vp_clock_gettime(clockid_t k, struct timespec *t) { (void)k; *t = tnow; return 0; }
int vp_poll(struct pollfd *p, nfds_t n, int timeout) {
    vp_assert(n == 1 && p->fd == close_pipefd[0] && (p->events & POLLIN), "the thread sleeps until it is told to stop"); vp_assert(!rd && !wr, "no lock is held between rounds");
    vp_assert(polls <= ROUNDS + 1, "poll bound");
    tmo = timeout;
    if (polls++ < ROUNDS) return 0;
    if (polls == ROUNDS + 1 && INTR) { errno = EINTR; return -1; }
    state.state = HALTING; p->revents = POLLIN; return 1;
}
static bool exited; static void *exitval;
static int closing_fd = -1;
int vp_close(int fd) { EACH(i) if (fd == FD0 + i) { vp_assert(c[i].removed == 1, "a descriptor is taken from the event layer before it is closed"); c[i].closes++; c[i].gone = true; } return vp_bool() ? -1 : 0; }
wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) { (void)server; (void)fd; vp_assert(0, "cleaning up makes no connection listen"); return WSS_SUCCESS; }
wss_error_t WSS_poll_set_write(wss_server_t *server, int fd) { EACH(i) if (fd == FD0 + i) vp_assert(!c[i].gone && server == (c[i].ssl ? &tls : &plain) && c[i].queued, "only unsent output waits"); return WSS_SUCCESS; }
wss_error_t WSS_poll_remove(wss_server_t *server, int fd) { EACH(i) if (fd == FD0 + i) { vp_assert(server == (c[i].ssl ? &tls : &plain) && !c[i].gone, "the connection's own server"); c[i].removed++; } return WSS_SUCCESS; }
static void control(int i, const unsigned char *b, size_t n, bool ping) {
    vp_assert(n >= 2 && n <= 127 && (b[0] & 0xbf) == (ping ? 0x89 : 0x88) && b[1] + 2u == n, "a control frame of at most 125 bytes"); vp_assert(!!(b[0] & 0x40) == EX, "negotiated extensions see the frame");
    if (!ping) vp_assert(n >= 4 && b[2] == (1013 >> 8) && b[3] == (1013 & 0xff), "the client is told to try again later");
    if (ping) {
        vp_assert(c[i].s->pong != NULL && c[i].s->pong_length + 2 == n, "the content of the ping is remembered"); for (size_t k = 0; k < 125; k++) if (k + 2 < n) vp_assert((unsigned char)c[i].s->pong[k] == b[k + 2], "the content of the ping is remembered");
    }
}
static ssize_t put(int i, const void *b, size_t n) {
    vp_assert(!c[i].gone && !c[i].claimed, "a connection that somebody else closes is not written to"); vp_assert(c[i].s->disconnecting, "output of a live connection goes through its queue"); vp_assert(c[i].jobs0 == 0, "nobody else is writing");
    vp_assert(c[i].wrote == 0, "the close frame is sent once"); vp_assert(c[i].protos <= 1, "told once");
    control(i, b, n, false); c[i].wrote = n; return n;
}
ssize_t vp_write(int fd, const void *b, size_t n) { ssize_t r = -1; EACH(i) if (fd == FD0 + i) { vp_assert(!c[i].ssl, "plain text never goes out over TLS"); if (vp_bool()) { errno = vp_bool() ? EAGAIN : EPIPE; c[i].wrote = 1; return -1; } r = put(i, b, n); } return r; }
void WSS_ssl_write(wss_session_t *s, char *b, unsigned int n) { EACH(i) if (s == c[i].s) { vp_assert(c[i].ssl, "the connection is a TLS one"); put(i, b, n); } }
wss_error_t WSS_session_ssl_free(wss_session_t *s, pthread_rwlock_t *l) { (void)l; s->ssl = NULL; return WSS_SUCCESS; }
ssize_t ringbuf_acquire(ringbuf_t *r, ringbuf_worker_t **w, size_t n) { (void)n; ssize_t k = -1; EACH(i) if ((void *)r == (void *)c[i].s->ringbuf) { vp_assert(!c[i].gone, "a live connection's queue"); if (!c[i].full) { k = 0; *w = (ringbuf_worker_t *)r; } } return k; }
void ringbuf_produce(ringbuf_t *r, ringbuf_worker_t **w) { *w = NULL; EACH(i) if ((void *)r == (void *)c[i].s->ringbuf) { vp_assert(!c[i].queued, "one ping per round"); c[i].queued = true; } }
void WSS_write(wss_server_t *server, wss_session_t *s) {
    EACH(i) if (s == c[i].s) {
        vp_assert(!c[i].gone && c[i].held && !c[i].busy && s->state == WRITING, "the send loop runs with the connection's lock"); vp_assert(server == (c[i].ssl ? &tls : &plain), "the connection's own server");
        if (vp_bool()) s->event = WRITE; else s->state = IDLE;
    }
}
static void px_close(int fd) { EACH(i) if (fd == FD0 + i) { vp_assert(!c[i].gone && c[i].jobs0 == 0 && !rd, "the application is told while the descriptor is open and no callback of the connection runs"); c[i].protos++; } }
static wss_subprotocol_t proto = { .close = px_close };
static int exall, exone;
static void ex_close(int fd) { EACH(i) if (fd == FD0 + i) c[i].exts++; }
static void ex_all(int fd, wss_frame_t **f, size_t n) { (void)fd; vp_assert(n == 1 && f != NULL, "one frame"); exall++; }
static void ex_one(int fd, wss_frame_t *f) { (void)fd; exone++; f->rsv1 = true; }
static wss_extension_t ext = { .outframes = ex_all, .outframe = ex_one, .close = ex_close };
#if VP_NATIVE
#include <setjmp.h>
static jmp_buf jb;
void vp_exit(void *v) { exited = true; exitval = v; longjmp(jb, 1); }
#else
void vp_exit(void *v) { exited = true; exitval = v; extern void after(void); after(); __CPROVER_assume(0); }
#endif
static bool hsk[NS], early[NS], late[NS], pend[NS], claimed0[NS], closing0[NS]; static wss_session_state_t st0[NS]; static long live0;
void after(void) {
    vp_assert(!rd && !wr, "no lock stays held");
    if (LOCKFAIL) { vp_assert(exitval != (void *)(uintptr_t)WSS_SUCCESS, "a failing lock is reported"); EACH(i) vp_assert(!c[i].gone && c[i].s->jobs == c[i].jobs0 && !c[i].queued, "and nothing happens"); return; }
    vp_assert(exitval == (void *)(uintptr_t)WSS_SUCCESS, "the thread ends when it is told to"); vp_assert(polls >= ROUNDS + 1, "not earlier");
    if (cfg.timeout_client < 0) vp_assert(tmo < 0, "without a timeout the thread sleeps until it is told to stop"); else if (cfg.timeout_pings == 0) vp_assert(tmo == cfg.timeout_client, "a round per timeout"); else vp_assert(tmo == cfg.timeout_client / (long)cfg.timeout_pings, "as many rounds per timeout as pings are wanted");
    long live = 0;
    EACH(i) {
        if (!c[i].gone) vp_assert(!c[i].held && !c[i].heldj && !c[i].heldd, "no lock stays held");
        bool pingable = hsk[i] && cfg.timeout_pings > 0;
        if (!hsk[i] || claimed0[i] || !late[i]) if (early[i] || !hsk[i] || claimed0[i]) {
            vp_assert(!c[i].gone && c[i].closes == 0 && c[i].protos == 0 && c[i].exts == 0 && c[i].removed == 0 && c[i].wrote == 0 && c[i].s->disconnecting == claimed0[i] && c[i].s->closing == closing0[i], "a connection that is not idle for too long is left open"); vp_reach("kept open");
        }
        if (hsk[i] && late[i] && !claimed0[i]) {
            vp_assert(c[i].gone && c[i].closes == 1 && c[i].removed == 1, "an idle connection is closed once"); vp_assert(c[i].protos == 1 && c[i].exts == EX, "application and extensions are told once"); vp_reach("closed");
            if (pend[i]) vp_assert(c[i].wrote == 0, "no frame goes into the middle of unsent output"); else if (!FAIL) { vp_assert(c[i].wrote > 0, "the client is told"); vp_reach("close frame"); }
        }
        if (!c[i].gone) {
            vp_assert(c[i].s->jobs == c[i].jobs0, "the count of running jobs is what it was");
            if (!pingable) vp_assert(!c[i].queued, "only established connections are pinged, if pings are wanted");
            else if (early[i] && !late[i] && !claimed0[i] && st0[i] == IDLE && !c[i].busy && !c[i].full && !closing0[i] && !FAIL) { vp_assert(c[i].queued, "an established connection is pinged"); vp_reach("pinged"); }
            if (c[i].queued) {
                vp_assert(c[i].slots[0] != NULL && c[i].slots[0]->framed, "the ping is queued"); control(i, (unsigned char *)c[i].slots[0]->msg, c[i].slots[0]->length, true); live += 2;
            } else { vp_assert(c[i].s->state == st0[i], "a connection that is not pinged is left alone"); }
            live += 4 + (c[i].s->header != NULL) + (c[i].s->pong != NULL) + EX * 3 * (c[i].s->header != NULL);
        } else vp_assert(WSS_session_find(FD0 + i) == NULL, "a closed connection is not found");
    }
    vp_assert(vp_live == live, "nothing of a closed connection stays allocated");
}
/* one row per connection: handshaked (2: not, but a part of the request has arrived), TLS, state, running jobs, busy, full queue, claimed by another thread, closing, earlier ping, age (0 young, 1 old, 2 active since, 3 any) */
static const signed char ROW[NS][10] = { ROWS };
void vp_main(void) {
    servers.http = &plain; servers.https = &tls; plain.config = &cfg; tls.config = &cfg; state.state = RUNNING;
    cfg.timeout_client = TMO < -1 ? (long)vp_range(0, 5001) - 1 : TMO; cfg.timeout_pings = PINGS; cfg.size_frame = 1000;
    tnow.tv_sec = 1000; tnow.tv_nsec = NS1;
    EACH(i) {
        const signed char *r = ROW[i];
        wss_session_t *s = vp_track(vp_raw0(sizeof *s)); c[i].s = s; s->fd = FD0 + i; s->ip = vp_track(vp_raw0(2)); wr = 1; HASH_ADD_INT(sessions, fd, s); wr = 0;
        s->handshaked = hsk[i] = r[0] == 1; s->messages = c[i].slots = vp_track(vp_raw0(2 * sizeof(wss_message_t *))); s->messages_count = 2; s->ringbuf = (ringbuf_t *)vp_track(vp_raw0(4));
        if (r[1]) { s->ssl = s; s->ssl_connected = true; c[i].ssl = 1; }
        if (hsk[i]) {
            s->header = vp_track(vp_raw0(sizeof(wss_header_t))); s->header->ws_protocol = &proto;
#if EX
            s->header->ws_extensions = vp_track(vp_raw0(sizeof(wss_ext_t *))); s->header->ws_extensions_count = 1; wss_ext_t *x = vp_track(vp_raw0(sizeof *x)); x->ext = &ext; x->name = vp_track(vp_raw0(2)); s->header->ws_extensions[0] = x;
#endif
        }
        if (r[0] == 2) s->header = vp_track(vp_raw0(sizeof(wss_header_t)));   /* a request of which only a part has arrived */
        s->state = st0[i] = (wss_session_state_t)r[2]; pend[i] = r[2] == WRITING;
        c[i].jobs0 = s->jobs = r[3]; c[i].busy = r[4]; c[i].full = r[5];
        s->disconnecting = claimed0[i] = c[i].claimed = r[6]; s->closing = closing0[i] = r[7];
        if (r[8]) { s->pong = vp_track(vp_raw0(3)); s->pong_length = 3; }
        s->alive.tv_nsec = NS0;
        if (r[9] == 3) {
            s->alive.tv_sec = 1001 - vp_range(0, 7); /* last activity up to 6 s ago, or after the round began */
            int64_t ns = (int64_t)(tnow.tv_sec - s->alive.tv_sec) * 1000000000 + tnow.tv_nsec - s->alive.tv_nsec;
            late[i] = cfg.timeout_client >= 0 && ns >= ((int64_t)cfg.timeout_client + 1) * 1000000; early[i] = cfg.timeout_client < 0 || ns < ((int64_t)cfg.timeout_client - 1) * 1000000;
        } else { s->alive.tv_sec = r[9] == 0 ? 999 : r[9] == 1 ? 990 : 1001; late[i] = r[9] == 1 && TMO >= 0; early[i] = !late[i]; }
    }
    vp_fail_at = FAIL;
#if VP_NATIVE
    if (setjmp(jb) == 0) WSS_cleanup();
    after();
#else
    WSS_cleanup();
#endif
}
