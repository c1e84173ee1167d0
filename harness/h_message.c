/* P15: the real message.c and frame.c and the real job counter; session lookup, queue, send loop and clock are the harness's.
 * MODE 0: WSS_message_send(fd, ...); MODE 1: WSS_message_send_frames for frames of the caller, who has counted the job. */
#include "vp.h"
#include "shadow/hash_pre.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include "worker.h"
#include "server.h"
#include "session.h"
#include "frame.h"
#include "message.h"
#include "ringbuf.h"
#include "error.h"
#include "rfc.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef LOCKFAIL
#define LOCKFAIL 0
#endif
#ifndef FOUND
#define FOUND 1
#endif
#ifndef FULL
#define FULL 0
#endif
#ifndef SLEEPS
#define SLEEPS 2
#endif
extern wss_servers_t servers;
wss_servers_t servers; wss_server_state_t state;
static wss_server_t plain, tls; static wss_config_t cfg, cfg2; static wss_session_t s; static wss_header_t h;
static wss_message_t *slots[4]; static int held, jlock; static bool found, full; static unsigned acquired, produced, writes, polls, naps, ext_all, ext_one; static size_t slot; static bool stalled; static int j00;

extern wss_session_t *volatile sessions; extern pthread_rwlock_t lock; static int rd, wr, dlock;
static void vp_hread(void) { vp_assert(rd > 0 || wr, "the table is read with its lock held"); }
static void vp_hwrite(void) { vp_assert(wr == 1, "the table is changed only by a thread that has it for itself"); }
#include "hash_model.h"
int vp_rwlock_rdlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr, "the table's lock is free"); if (LOCKFAIL) return EAGAIN; rd++; return 0; }
int vp_rwlock_wrlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr && !rd, "the table's lock is free"); wr = 1; return 0; }
int vp_rwlock_unlock(pthread_rwlock_t *l) { vp_assert(l == &lock && (wr || rd), "only a held lock is released"); if (wr) wr = 0; else rd--; return 0; }
int vp_mutex_lock(pthread_mutex_t *m) {
    if (m == &s.lock) { held++; return 0; }
    if (m == &s.lock_disconnecting) { vp_assert(!dlock, "free"); dlock = 1; return 0; }
    vp_assert(m == &s.lock_jobs && !jlock, "the job counter's lock is free"); jlock = 1; return 0;
}
int vp_mutex_unlock(pthread_mutex_t *m) {
    if (m == &s.lock) { vp_assert(held > 0, "only a held lock is released"); vp_assert(s.jobs > j00, "the connection cannot go away while its lock is held"); held--; return 0; }
    if (m == &s.lock_disconnecting) { vp_assert(dlock, "only a held lock is released"); dlock = 0; return 0; }
    vp_assert(m == &s.lock_jobs && jlock, "only a held lock is released"); jlock = 0; return 0;
}
int vp_cond_signal(pthread_cond_t *c) { (void)c; return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b; (void)a;
    vp_assert(!held, "nobody sleeps with the connection's lock");
    vp_assert(s.state == READING || s.state == CONNECTING, "a writable connection is not made to wait");
    naps++; s.state = naps >= SLEEPS ? (vp_bool() ? IDLE : vp_bool() ? WRITING : CLOSING) : (wss_session_state_t)vp_range(IDLE, CONNECTING);
    return 0;
}
int vp_clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = 100; t->tv_nsec = 5; return 0; }
static void *ring_id;
ssize_t ringbuf_acquire(ringbuf_t *r, ringbuf_worker_t **w, size_t n) {
    vp_assert((void *)r == ring_id && n == 1, "one slot of the connection's queue"); vp_assert(acquired == produced, "one slot at a time");
    if (full) return -1;
    acquired++; *w = (ringbuf_worker_t *)ring_id; return (ssize_t)slot;
}
void ringbuf_produce(ringbuf_t *r, ringbuf_worker_t **w) {
    vp_assert((void *)r == ring_id && (void *)*w == ring_id && acquired == produced + 1, "the acquired slot is published");
    vp_assert(slots[slot] != NULL, "the message is in its slot before the slot is published"); produced++; *w = NULL;
}
void WSS_write(wss_server_t *server, wss_session_t *session) {
    vp_assert(session == &s && server == (s.ssl != NULL && s.ssl_connected ? &tls : &plain), "the connection's own server");
    vp_assert(held == 1 && s.state == WRITING && produced == 1, "the send loop runs with the connection's lock, for a queued message");
    writes++; stalled = vp_bool();
    if (stalled) s.event = WRITE; else s.state = IDLE;
}
wss_error_t WSS_poll_set_write(wss_server_t *server, int fd) { vp_assert(server == (s.ssl != NULL && s.ssl_connected ? &tls : &plain) && fd == 7, "the connection's own server"); polls++; return WSS_SUCCESS; }
wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) { (void)server; (void)fd; vp_assert(0, "sending does not change a connection to reading"); return WSS_SUCCESS; }
static unsigned nframes;
static void outframes(int fd, wss_frame_t **f, size_t n) { vp_assert(fd == 7 && n == nframes, "the extension sees every frame of the message"); (void)f; ext_all++; }
static void outframe(int fd, wss_frame_t *f) { vp_assert(fd == 7 && f != NULL, "the extension sees the connection's frame"); vp_assert(ext_all == 1, "the whole message is shown first"); ext_one++; f->rsv1 = true; }
static wss_extension_t ext = { .outframes = outframes, .outframe = outframe }; static wss_ext_t ae = { .ext = &ext }; static wss_ext_t *aes[1] = { &ae };

void vp_main(void) {
    cfg.size_frame = FS; cfg2.size_frame = FS; plain.config = &cfg; tls.config = &cfg2; servers.http = &plain; servers.https = &tls;
    found = FOUND; full = FULL; slot = 2;
    s.fd = 7; s.header = &h; s.handshaked = true; s.messages = slots; s.messages_count = 4; ring_id = vp_raw0(8); s.ringbuf = ring_id;
    if (vp_bool()) { s.ssl = &s; s.ssl_connected = vp_bool(); }
#if EX
    h.ws_extensions = aes; h.ws_extensions_count = 1;
#endif
#if UNSHAKEN
    s.handshaked = false; s.header = NULL;
#endif
    s.event = vp_bool() ? NONE : READ; wss_session_event_t ev0 = s.event;
    s.state = (wss_session_state_t)vp_range(IDLE, CONNECTING); wss_session_state_t st0 = s.state;
    int j0 = (int)vp_range(0, 3); s.jobs = j00 = j0; s.disconnecting = MODE == 0 && vp_bool(); bool dis = s.disconnecting;
    if (found) { wr = 1; HASH_ADD_INT(sessions, fd, (&s)); wr = 0; } else if (vp_bool()) { static wss_session_t s2; s2.fd = 8; wr = 1; HASH_ADD_INT(sessions, fd, (&s2)); wr = 0; }
    found = found && !dis && !LOCKFAIL;
    uint8_t op = OP;
    char *msg = vp_bytes(ML); nframes = ML == 0 ? 1 : (ML + FS - 1) / FS;
    bool ok;
    vp_fail_at = FAIL;
#if MODE == 0
    ok = found && !full && !FAIL && !UNSHAKEN;
    WSS_message_send(7, (wss_opcode_t)op, ML ? msg : NULL, ML);
#else
    static wss_frame_t fr[2]; static wss_frame_t *fs[2] = { &fr[0], &fr[1] };
    static wss_frame_t **volatile dummy; (void)dummy;
    for (unsigned i = 0; i < nframes; i++) {
        unsigned o = i * FS, n = ML - o < FS ? ML - o : FS;
        fr[i].fin = i + 1 == nframes; fr[i].opcode = i ? 0 : op; fr[i].payload = msg + o; fr[i].payloadLength = fr[i].applicationDataLength = n;
        
    }
    ok = !full && !FAIL && !UNSHAKEN;
    s.jobs++;
    WSS_message_send_frames(s.ssl != NULL && s.ssl_connected ? &tls : &plain, &s, fs, nframes);
#endif
    vp_assert(s.jobs == j0, "the count of running jobs is what it was");
    vp_assert(held == 0 && jlock == 0 && !dlock && !rd && !wr, "no lock stays held");
    vp_assert(acquired == produced, "an acquired slot is published");
    if (found && !full && !UNSHAKEN && !FAIL) vp_assert(produced == 1, "a message to a live connection is queued once");
    vp_assert(produced <= 1, "a message is queued at most once");
    if (!found || full || UNSHAKEN) vp_assert(produced == 0, "a message that cannot be queued is not queued");
    if (FAIL && vp_alloc_calls >= FAIL && !full) vp_assert(produced == 0, "a message that cannot be built is not queued");
    if (produced == 0) {
        for (int i = 0; i < 4; i++) vp_assert(slots[i] == NULL, "a failed send puts nothing into the queue");
        vp_assert(writes == 0 && polls == 0 && s.state == st0 && s.event == ev0, "a failed send leaves the connection alone"); vp_assert(vp_live == 0, "a failed send leaves nothing allocated");
        vp_reach("send refused");
    } else {
        wss_message_t *m = slots[slot];
        vp_assert(m != NULL && m->framed, "the message is in its slot, marked as frames");
        vp_assert(ext_all == EX && ext_one == EX * nframes, "negotiated extensions see the message and each of its frames once");
        unsigned at = 0;
        for (unsigned i = 0; i < nframes; i++) {
            unsigned n = ML - i * FS < FS ? ML - i * FS : FS;
            vp_assert(at + 2 + n <= m->length, "every frame is in the message");
            vp_assert((uint8_t)m->msg[at] == ((i + 1 == nframes ? 0x80 : 0) | (EX ? 0x40 : 0) | (i ? 0 : op)) && (uint8_t)m->msg[at + 1] == n, "the frames follow RFC 6455");
            for (unsigned k = 0; k < n; k++) vp_assert(m->msg[at + 2 + k] == msg[i * FS + k], "the frames carry the message");
            at += 2 + n;
        }
        vp_assert(m->length == at, "nothing else is in the message");
        if (naps == 0) {
            vp_assert(writes == (st0 == IDLE), "an idle connection is written to at once, others by whoever is using them");
        }
        vp_assert(writes <= 1, "the send loop is run at most once");
        vp_assert(writes == 1 || s.state == WRITING || s.state == CLOSING, "the message is not forgotten: it is written, or the connection is being written to or closed");
        if (writes == 1) vp_assert(polls == stalled || (stalled && polls > 0), "output the socket does not take is continued when the socket is writable");
        if (writes == 1 && stalled) { vp_assert(s.alive.tv_sec == 100 && s.alive.tv_nsec == 5, "the write timeout counts from now"); vp_reach("socket full"); }
        vp_reach("queued");
        if (naps == SLEEPS) vp_reach("queued after waiting");
        vp_release(m->msg); vp_release(m);
        vp_assert(vp_live == 0, "nothing else stays allocated");
    }
    if (FAIL) vp_assert(produced == 0 || vp_alloc_calls < FAIL, "no send succeeds without memory");
}
