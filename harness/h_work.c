/* P18: the real dispatcher, connection set-up and teardown (worker.c), connection table (session.c) and TLS layer (ssl.c).
 * Sockets, event layer, TLS library, clock and message queue are the harness's; locks are tracked; the hash table is replaced by its contract.
 * MODE 0: one work item for a connection in state ST with event EV; MODE 1: accepting connections. OTHER: a second thread may disconnect the
 * connection at any lock operation at which the locks it needs are free. */
#include "vp.h"
#include "shadow/hash_pre.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include "worker.h"
#include "server.h"
#include "session.h"
#include "frame.h"
#include "header.h"
#include "message.h"
#include "ringbuf.h"
#include "event.h"
#include "error.h"
#ifndef OTHER
#define OTHER 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef QN
#define QN 0
#endif
#ifndef NCONN
#define NCONN 1
#endif
#ifndef RD
#define RD 0
#endif
#define RING 4
wss_servers_t servers; wss_server_state_t state;
extern wss_session_t *volatile sessions; extern pthread_rwlock_t lock;
static wss_server_t srv; static wss_config_t cfg; static wss_session_t *s; static int J0;
static int rd, wr; static int held, heldj, heldd; static bool gone, in_other, claimed, done; static unsigned yields, at1, at2;
static int armed_r, armed_w, removed, proto_close, closes, nonblock; static int ssl_frees, ssl_shuts;
static void vp_hread(void) { vp_assert(rd > 0 || wr, "the table is read with its lock held"); }
static void vp_hwrite(void) { vp_assert(wr == 1, "the table is changed only by a thread that has it for itself"); }
#include "hash_model.h"
void px_close(int fd) { vp_assert(closes == 0 && fd == 7, "the application is told while the descriptor is open"); proto_close++; }
static wss_subprotocol_t proto;
static void other(void) {
#if OTHER
    if (in_other || gone || s == NULL) return;
    yields++; in_other = true;
    if (!claimed && !heldd && yields == at1) { bool dc; WSS_session_is_disconnecting(s, &dc); claimed = !dc; }
    if (claimed && !done && !rd && !wr && !heldj && s->jobs == 0 && yields >= at2) {
        done = true; s->state = CLOSING;
        if (s->header != NULL && s->header->ws_protocol != NULL) { s->header->ws_protocol->close(s->fd); s->header->ws_protocol = NULL; }
        WSS_poll_remove(&srv, 7); WSS_session_delete(s);
    }
    in_other = false;
#endif
}
int vp_rwlock_rdlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr, "the table's lock is free for reading"); if (!in_other) other(); rd++; return 0; }
int vp_rwlock_wrlock(pthread_rwlock_t *l) { vp_assert(l == &lock && !wr && !rd, "the table's lock is free"); if (!in_other) other(); wr = 1; return 0; }
int vp_rwlock_unlock(pthread_rwlock_t *l) { vp_assert(l == &lock && (wr || rd), "only a held lock is released"); if (wr) wr = 0; else rd--; if (!in_other) other(); return 0; }
int vp_rwlock_init(pthread_rwlock_t *l, const void *a) { (void)l; (void)a; return 0; }
int vp_rwlock_destroy(pthread_rwlock_t *l) { (void)l; return 0; }
int vp_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int vp_mutex_destroy(pthread_mutex_t *m) { if (s != NULL) { vp_assert(!(m == &s->lock && held), "a lock that is held is not destroyed"); vp_assert(!(m == &s->lock_jobs && heldj) && !(m == &s->lock_disconnecting && heldd), "a lock that is held is not destroyed"); } return 0; }
int vp_mutexattr_init(pthread_mutexattr_t *a) { (void)a; return 0; }
int vp_mutexattr_settype(pthread_mutexattr_t *a, int t) { (void)a; (void)t; return 0; }
int vp_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int vp_mutex_lock(pthread_mutex_t *m) {
    if (MODE == 1) return 0;
    if (!in_other) other();
    vp_assert(!gone, "a connection is not used after it was destroyed");
    if (m == &s->lock) held++; else if (m == &s->lock_jobs) { vp_assert(!heldj, "free"); heldj = 1; } else { vp_assert(m == &s->lock_disconnecting && !heldd, "free"); heldd = 1; }
    return 0;
}
int vp_mutex_unlock(pthread_mutex_t *m) {
    if (MODE == 1) return 0;
    vp_assert(!gone, "a connection is not used after it was destroyed");
    if (m == &s->lock) { if (!held) return EPERM; held--; } else if (m == &s->lock_jobs) { vp_assert(heldj, "held"); heldj = 0; } else { vp_assert(m == &s->lock_disconnecting && heldd, "held"); heldd = 0; }
    if (!in_other) other();
    return 0;
}
int vp_cond_signal(pthread_cond_t *c) { (void)c; return 0; }
int vp_cond_broadcast(pthread_cond_t *c) { (void)c; return 0; }
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    (void)c; (void)m;
    vp_assert(MODE == 0 && J0 > 0, "waiting for running jobs ends: the waiter's own job is not one of them");
    vp_assume(MODE == 0 && J0 > 0);
    vp_assert(s->state == CLOSING, "whoever waits for the connection to be writable gives up before the connection waits for him");
    J0--; s->jobs--; return 0;
}
int vp_close(int fd) { vp_assert(fd == (MODE ? fd : 7), "own descriptor"); closes++; gone = MODE == 0; if (MODE == 0) vp_assert(removed == 1, "a descriptor is taken from the event layer before it is closed"); if (MODE == 1) { extern void vp_closed(int); vp_closed(fd); } return 0; }
static struct timespec tnow;
int vp_clock_gettime(clockid_t c, struct timespec *t) { (void)c; *t = tnow; return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; vp_assert(0, "own output is never waited for"); vp_assume(0); return 0; }
/* event layer */
static int arms[4][2], rems[4];
wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) { vp_assert(server == &srv && !gone && !removed, "only a live connection is armed"); armed_r++; if (MODE) arms[fd - 7][0]++; else vp_assert(fd == 7, "own descriptor"); return WSS_SUCCESS; }
wss_error_t WSS_poll_set_write(wss_server_t *server, int fd) { vp_assert(server == &srv && !gone && !removed, "only a live connection is armed"); armed_w++; if (MODE) arms[fd - 7][1]++; else vp_assert(fd == 7, "own descriptor"); return WSS_SUCCESS; }
wss_error_t WSS_poll_remove(wss_server_t *server, int fd) { vp_assert(server == &srv && !gone, "a live connection is removed"); if (MODE) rems[fd - 7]++; else removed++; return WSS_SUCCESS; }
/* queue */
static size_t cons, prod; static char ring_mem[64];
void ringbuf_get_sizes(const unsigned int len, const unsigned n, size_t *o, size_t *w) { (void)len; (void)n; if (o) *o = 48; if (w) *w = 8; }
int ringbuf_setup(ringbuf_t *r, unsigned len, unsigned n, size_t l) { (void)r; (void)len; vp_assert(n == cfg.pool_workers + 1 && l == cfg.size_ringbuffer, "the queue has the configured size"); return 0; }
size_t ringbuf_consume(ringbuf_t *r, size_t *off) { (void)r; *off = cons % RING; return prod - cons > RING - cons % RING ? RING - cons % RING : prod - cons; }
void ringbuf_release(ringbuf_t *r, size_t n) { (void)r; vp_assert(n <= prod - cons, "no more slots are released than are queued"); cons += n; }
ssize_t ringbuf_acquire(ringbuf_t *r, ringbuf_worker_t **w, size_t n) { (void)r; (void)n; *w = (ringbuf_worker_t *)ring_mem; return prod - cons < RING ? (ssize_t)(prod % RING) : -1; }
void ringbuf_produce(ringbuf_t *r, ringbuf_worker_t **w) { (void)r; *w = NULL; prod++; }
/* sockets */
static int reads, wfail, wagain, rfail;
ssize_t vp_read(int fd, void *b, size_t n) {
    static const unsigned char cl[6] = { 0x88, 0x80, 1, 2, 3, 4 }, bin[7] = { 0x82, 0x81, 1, 2, 3, 4, 'x' };
    vp_assert(fd == 7 && !gone && n >= 8, "own descriptor");
    reads++;
    if (reads == 1 && RD == 1) { memcpy(b, cl, 6); return 6; }
    if (reads == 1 && RD == 2) { memcpy(b, bin, 7); return 7; }
    if (reads == 1 && RD == 3) { memcpy(b, bin, 5); return 5; }
    if (RD == 4 || (RD == 0 && vp_bool())) { rfail = 1; errno = ECONNRESET; return -1; }
    errno = EAGAIN; return -1;
}
ssize_t vp_write(int fd, const void *b, size_t n) {
    (void)b; vp_assert(fd == 7 && !gone && n > 0, "own descriptor");
    uint32_t k = vp_range(0, 2);
    if (k == 0) { wagain = 1; errno = EAGAIN; return -1; }
    if (k == 1) { wfail = 1; errno = EPIPE; return -1; }
    return n;
}
static int msgs; void px_message(int fd, wss_opcode_t op, char *m, size_t n) { vp_assert(fd == 7 && op == BINARY_FRAME && n == 1 && m[0] == ('x' ^ 1), "the message"); msgs++; }
/* TLS library */
static int hs_err, tls_err; static int TLSOBJ;
SSL *SSL_new(SSL_CTX *c) { (void)c; return vp_bool() ? (SSL *)&TLSOBJ : NULL; }
int SSL_set_fd(SSL *x, int fd) { (void)x; (void)fd; return vp_bool(); }
void SSL_set_accept_state(SSL *x) { (void)x; }
int SSL_do_handshake(SSL *x) { vp_assert((int *)x == &TLSOBJ && !gone, "a live connection"); uint32_t k = vp_range(0, 4); hs_err = k == 0 ? SSL_ERROR_NONE : k == 1 ? SSL_ERROR_WANT_READ : k == 2 ? SSL_ERROR_WANT_WRITE : k == 3 ? SSL_ERROR_SSL : SSL_ERROR_SYSCALL; tls_err = hs_err; return hs_err == SSL_ERROR_NONE ? 1 : -1; }
int SSL_get_error(const SSL *x, int r) { (void)x; (void)r; return tls_err; }
int SSL_read(SSL *x, void *b, int n) { (void)x; (void)b; (void)n; uint32_t k = RD == 5 ? 0 : RD == 6 ? 1 : RD == 4 ? 2 : vp_range(0, 2); tls_err = k == 0 ? SSL_ERROR_WANT_READ : k == 1 ? SSL_ERROR_WANT_WRITE : SSL_ERROR_SYSCALL; if (k == 2) rfail = 1; if (k == 1) wagain = 2; return -1; }
int SSL_write(SSL *x, const void *b, int n) { (void)x; (void)b; uint32_t k = vp_range(0, 3); tls_err = k == 0 ? SSL_ERROR_WANT_READ : k == 1 ? SSL_ERROR_WANT_WRITE : k == 2 ? SSL_ERROR_SYSCALL : SSL_ERROR_NONE; if (k == 2) wfail = 1; if (k == 1) wagain = 1; if (k == 0) wagain = 2; return k == 3 ? n : -1; }
int SSL_shutdown(SSL *x) { vp_assert((int *)x == &TLSOBJ && closes == (MODE ? closes : 0), "TLS ends before the socket"); ssl_shuts++; if (vp_bool()) return 1; tls_err = vp_bool() ? SSL_ERROR_WANT_READ : vp_bool() ? SSL_ERROR_WANT_WRITE : SSL_ERROR_SYSCALL; return -1; }
void SSL_free(SSL *x) { vp_assert((int *)x == &TLSOBJ, "TLS state is released once"); ssl_frees++; }
unsigned long ERR_get_error(void) { return 0; }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { (void)e; if (n) b[0] = 0; }

#if MODE == 1
static int accepted, calls, stops, gone_fd[4];
void vp_closed(int fd) { gone_fd[fd - 7]++; }
int vp_accept(int fd, struct sockaddr *a, socklen_t *l) {
    vp_assert(fd == 3 && l != NULL && !stops, "the listening socket, until it has no more");
    struct sockaddr_in *in = (struct sockaddr_in *)a; in->sin_port = htons(81); in->sin_addr.s_addr = 0;
    uint32_t k = vp_range(0, 4); calls++;
    if (k == 0 && accepted < NCONN) return 7 + accepted++;
    vp_assume(k > 0);
    if (k == 1 && calls <= NCONN + 1) { errno = EINTR; return -1; }
    if (k == 2 && calls <= NCONN + 1) { errno = ECONNABORTED; return -1; }
    stops = k == 3 ? 2 : 1; errno = k == 3 ? EMFILE : EAGAIN; return -1;
}
char *vp_ntoa(struct in_addr a) { (void)a; static char t[] = "0.0.0.0"; return t; }
wss_error_t WSS_socket_non_blocking(int fd) { vp_assert(fd == 7 + accepted - 1, "the new connection does not block"); nonblock++; return WSS_SUCCESS; }
#endif

void vp_main(void) {
    srv.config = &cfg; srv.fd = 3; cfg.size_buffer = 16; cfg.size_ringbuffer = RING; cfg.pool_workers = 2; cfg.size_frame = 100; cfg.size_payload = 1000; cfg.max_frames = 8; cfg.timeout_read = cfg.timeout_write = -1; servers.http = servers.https = &srv;
    static int ctx; if (TLS) srv.ssl_ctx = (void *)&ctx;
#if MODE == 0
    s = vp_track(vp_raw0(sizeof *s)); s->fd = 7; s->ip = vp_track(vp_raw0(2)); s->port = 1; wr = 1; HASH_ADD_INT(sessions, fd, s); wr = 0;
    s->ringbuf = vp_track(vp_raw0(48)); s->messages = vp_track(vp_raw0(RING * sizeof(wss_message_t *))); s->messages_count = RING;
    extern void px_message(int, wss_opcode_t, char *, size_t);
    proto.close = px_close; proto.message = px_message;
    s->handshaked = HSK; if (HSK) { s->header = vp_track(vp_raw0(sizeof(wss_header_t))); s->header->ws_protocol = &proto; }
    if (TLS) { s->ssl = &TLSOBJ; s->ssl_connected = HSK; }
    for (int i = 0; i < QN; i++) { wss_message_t *m = vp_track(vp_raw0(sizeof *m)); m->msg = vp_track(vp_raw0(2)); m->msg[0] = (char)0x82; m->length = 2; m->framed = true; s->messages[i] = m; prod++; }
    s->state = (wss_session_state_t)ST; s->event = NONE; J0 = OTHER ? 0 : (int)vp_range(0, 1); s->jobs = J0;
    at1 = vp_u32(); at2 = vp_u32();
    tnow.tv_sec = 1000; tnow.tv_nsec = 0; s->alive = tnow;
    bool late = false, early = true;
#ifdef TIMES
    cfg.timeout_read = cfg.timeout_write = (int)vp_range(0, 5001) - 1; tnow.tv_sec = 1000 + vp_range(0, 6); tnow.tv_nsec = NS1; s->alive.tv_nsec = NS0;
    vp_assume(tnow.tv_sec > 1000 || tnow.tv_nsec >= s->alive.tv_nsec);
    int64_t ns = (int64_t)(tnow.tv_sec - 1000) * 1000000000 + tnow.tv_nsec - s->alive.tv_nsec;
    late = cfg.timeout_read >= 0 && ns >= ((int64_t)cfg.timeout_read + 1) * 1000000; early = cfg.timeout_read < 0 || ns < ((int64_t)cfg.timeout_read - 1) * 1000000;
#endif
    wss_thread_args_t *a = vp_track(vp_raw0(sizeof *a)); a->server = &srv; a->fd = 7; a->state = (wss_session_state_t)EV;
    vp_fail_at = FAIL;
    WSS_work(a);
    vp_assert(!held && !heldj && !heldd && !rd && !wr, "no lock stays held");
#if OTHER
    if (claimed && !done) { vp_assert(!gone && s->jobs == 0, "who disconnects does it when the jobs ended"); in_other = true; if (s->header != NULL && s->header->ws_protocol != NULL) { s->header->ws_protocol->close(7); s->header->ws_protocol = NULL; } WSS_poll_remove(&srv, 7); WSS_session_delete(s); }
    if (claimed) { vp_assert(gone, "the connection is gone"); vp_reach("other thread disconnects"); }
#endif
    bool must = EV == CLOSING || ST == CLOSING || wfail || rfail || (RD == 1 && !wagain) || (TLS && !HSK && hs_err > 0 && hs_err != SSL_ERROR_WANT_READ && hs_err != SSL_ERROR_WANT_WRITE);
    if (gone) {
        vp_assert(proto_close == HSK, "the application is told exactly once"); vp_assert(removed == 1 && closes == 1, "the connection is closed exactly once"); vp_assert(ssl_frees == TLS, "TLS state is released");
        if (!claimed) vp_assert(must || !early || FAIL, "a connection is closed only for a reason"); vp_assert(vp_live == 0, "nothing of a closed connection stays allocated"); vp_reach("closed");
    } else {
        vp_assert(!must, "a connection that ended, failed or was closed is closed"); 
#ifdef TIMES
        vp_assert(!late, "a connection that waited too long is closed"); vp_reach("in time");
#endif
        vp_assert(s->jobs == J0, "the count of running jobs is what it was"); vp_assert(proto_close == 0 && removed == 0 && closes == 0, "a live connection stays open");
        vp_assert(!s->closing && !s->disconnecting, "a live connection is not closing");
        vp_assert((armed_r > 0) + (armed_w > 0) == 1, "a live connection listens for exactly one kind of event again");
        if (TLS && !HSK) { vp_assert((armed_w > 0) == (hs_err == SSL_ERROR_WANT_WRITE), "a handshake waits for what it needs"); vp_assert(s->state == (hs_err == SSL_ERROR_NONE ? IDLE : CONNECTING) && s->ssl_connected == (hs_err == SSL_ERROR_NONE), "and is done when the library says so"); }
        else if (!TLS) { vp_assert((armed_w > 0) == wagain, "unsent output waits for the socket to be writable"); vp_assert(prod == cons || wagain || (ST != WRITING && EV != WRITING), "a writable connection is written to"); }
        else vp_assert((armed_w > 0) == (wagain == 1 || (wagain == 2 && prod == cons)), "TLS waits for what it needs");
        if (RD == 2) vp_assert(msgs == 1 || (ST == WRITING || EV == WRITING), "a readable connection is read");
        if (ST == WRITING && wagain) vp_assert(s->state == WRITING, "a connection with unsent output stays a writing one"); vp_reach("kept open");
    }
#else
    vp_fail_at = FAIL;
    WSS_connect(&srv);
    vp_assert(stops, "connections are accepted until the listening socket has no more"); vp_assert(nonblock == accepted, "every connection is non-blocking");
    for (int i = 0; i < NCONN; i++) if (i < accepted) {
        wss_session_t *c = WSS_session_find(7 + i); int sum = arms[i][0] + arms[i][1];
        if (gone_fd[i]) { vp_assert(gone_fd[i] == 1 && c == NULL, "a refused connection is closed once"); vp_reach("refused"); }
        else {
            vp_assert(c != NULL && !c->closing && !c->disconnecting && c->jobs == 0 && c->messages != NULL && c->ringbuf != NULL && c->messages_count == RING, "an accepted connection is complete"); vp_assert(sum == 1 && rems[i] == 0, "an accepted connection listens");
            if (!TLS) vp_assert(c->state == IDLE && arms[i][0] == 1, "an accepted connection waits for the request"); else vp_assert(c->ssl != NULL && (c->state == IDLE) == c->ssl_connected && (c->ssl_connected || c->state == CONNECTING), "an accepted connection does the TLS handshake");
            if (!FAIL && !TLS) vp_assert(1, "");
            vp_reach("accepted");
        }
        if (!FAIL && !TLS) vp_assert(!gone_fd[i], "a connection is refused only for a reason");
    }
    vp_assert(!rd && !wr, "no lock stays held");
#endif
}
