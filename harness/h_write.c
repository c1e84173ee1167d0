/* P12 send loop: the real WSS_write over a recording socket. NM messages of lengths LEN, FRM[i]: 0 = plain HTTP bytes, else opcode of a frame;
 * QAT: how many messages are queued before wake-up k; the socket accepts any number of bytes per call, may report EAGAIN, EINTR or an error. */
#include "vp.h"
#include "worker.h"
#include "server.h"
#include "session.h"
#include "frame.h"
#include "message.h"
#include "ringbuf.h"
#include "error.h"
#include <errno.h>
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
static const int LENS[] = LEN; static const int FRMS[] = FRM; static const int QS[] = QAT;
#define RING 4
#ifndef START
#define START 0
#endif
#ifndef MAXFAULT
#define MAXFAULT 2
#endif
#ifndef ERRS
#define ERRS 1
#endif
static char all[TOT + 1]; static int nout; static int again, failed, calls, faults;
static size_t head, cons, prod; /* absolute positions */
static int relmax;

ssize_t vp_write(int fd, const void *buf, size_t n) {
    const char *b = buf;
    vp_assert(fd == 7, "written to the connection's descriptor");
    vp_assert(n > 0 && !failed, "no write after a failed write");
    vp_assert(nout + (int)n <= TOT, "no more bytes than the queued messages have");
    calls++;
    unsigned k = vp_range(0, TOT + 2);
    if (k == 0 || k > TOT) {
        vp_assume(faults < MAXFAULT && (ERRS || k != TOT + 2)); faults++;
        if (k == 0) again = 1;
        if (k == TOT + 2) failed = 1;
        errno = k == 0 ? EAGAIN : k == TOT + 1 ? EINTR : EPIPE;
        return -1;
    }
    vp_assume(k <= n);
    for (unsigned i = 0; i < MAXLEN; i++) if (i < k) vp_assert(b[i] == all[nout + i], "bytes leave in queue order, each exactly once");
    nout += (int)k;
    return k;
}
#ifdef TLS      /* the real TLS write function over a library whose every answer is chosen by the solver */
#include <openssl/ssl.h>
static char tls; static int tls_err, want; static const void *rb; static int rl, nerr;
int SSL_write(SSL *x, const void *buf, int n) {
    const char *b = buf;
    vp_assert(x == (SSL *)&tls && n > 0 && !failed, "no write on a failed stream");
    vp_assert(want == 0 || (rb == buf && rl == n), "a write that has to be repeated is repeated unchanged");
    vp_assert(nout + n <= TOT, "no more bytes than the queued messages have");
    unsigned k = vp_range(0, TOT + 4); tls_err = SSL_ERROR_NONE; want = 0;
    if (k == 0 || k > TOT) {
        vp_assume(faults < MAXFAULT && (ERRS || k <= TOT + 1)); faults++;
        tls_err = k == 0 ? SSL_ERROR_WANT_WRITE : k == TOT + 1 ? SSL_ERROR_WANT_READ : k == TOT + 2 ? SSL_ERROR_SSL : k == TOT + 3 ? SSL_ERROR_SYSCALL : SSL_ERROR_ZERO_RETURN;
        if (k <= TOT + 1) { again = 1; want = k == 0 ? 1 : 2; rb = buf; rl = n; } else { failed = 1; nerr = k == TOT + 2; }
        return k == TOT + 4 ? 0 : -1;
    }
    vp_assume(k <= (unsigned)n);
    for (unsigned i = 0; i < MAXLEN; i++) if (i < k) vp_assert(b[i] == all[nout + i], "bytes leave in queue order, each exactly once");
    nout += (int)k;
    return (int)k;
}
int SSL_get_error(const SSL *x, int r) { vp_assert(x == (SSL *)&tls && (r > 0) == (tls_err == SSL_ERROR_NONE), "asked about the last call"); return tls_err; }
unsigned long ERR_get_error(void) { return nerr ? (unsigned long)nerr-- : 0; }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { (void)e; if (n) b[0] = 0; }
#define WAIT (want == 2 ? READ : WRITE)
#else
#define WAIT WRITE
#endif
static void *ring_id;
size_t ringbuf_consume(ringbuf_t *r, size_t *off) {
    vp_assert((void *)r == ring_id, "the connection's own queue");
    size_t n = prod - cons; if (n == 0) return 0;
    *off = cons % RING;
    return *off + n > RING ? RING - *off : n;
}
void ringbuf_release(ringbuf_t *r, size_t n) { vp_assert((void *)r == ring_id, "the connection's own queue"); vp_assert(n <= prod - cons, "no more slots are released than are queued"); cons += n; }
ssize_t ringbuf_acquire(ringbuf_t *r, ringbuf_worker_t **w, size_t n) { (void)r; (void)w; (void)n; return -1; }
void ringbuf_produce(ringbuf_t *r, ringbuf_worker_t **w) { (void)r; (void)w; }

void vp_main(void) {
    static wss_server_t srv; static wss_config_t cfg; static wss_session_t s; static wss_header_t h; static wss_message_t *slots[RING];
    srv.config = &cfg; s.fd = 7; s.handshaked = HS; s.header = &h; s.messages = slots; s.messages_count = RING; s.state = WRITING;
#ifdef TLS
    s.ssl = (SSL *)&tls; s.ssl_connected = true;
#endif
    ring_id = vp_raw0(8); s.ringbuf = ring_id; cons = prod = START;
    size_t at = 0; int lim = TOT, closeend = -1; 
    static char *bytes[NM];
    for (int i = 0; i < NM; i++) {
        bytes[i] = vp_raw(LENS[i]);
        for (int j = 0; j < LENS[i]; j++) {
            char c = j == 0 && FRMS[i] ? (char)(0x80 | (FRMS[i] & 15)) : (char)vp_u8();
            bytes[i][j] = c; all[at++] = c;
        }
        if (HS && FRMS[i] == 8 && closeend < 0) closeend = (int)at;
    }
    if (closeend >= 0) lim = closeend;
    int q = 0, avail = 0; bool over = false;
    for (int k = 0; k < NW && !over; k++) {
        while (q < QS[k]) {     /* the application queues messages up to number QS[k] */
            wss_message_t *m = vp_track(vp_raw0(sizeof *m)); m->msg = vp_track(bytes[q]); m->length = LENS[q]; m->framed = FRMS[q] != 0;
            slots[prod % RING] = m; prod++; avail += LENS[q]; q++;
        }
        if (k > 0 && !again) s.state = WRITING;
        again = 0; s.event = READ;
        WSS_write(&srv, &s);
        if (nout > lim) vp_assert(0, "nothing is sent after a close frame");
        if (failed) { vp_assert(s.closing, "a failed write closes the connection"); vp_reach("write failed"); over = true; }
        else if (again) {
            vp_assert(!s.closing && s.event == WAIT, "a full socket makes the server wait until it is writable");
            vp_assert(s.state == WRITING, "the connection stays in the writing state");
            vp_reach("socket full");
        } else {
            int want = avail < lim ? avail : lim;
            vp_assert(nout == want, "every queued byte has been handed to the socket");
            vp_assert(s.closing == (closeend >= 0 && avail >= closeend), "the connection is closed exactly when a close frame has been sent completely");
            if (s.closing) { vp_reach("closed after close frame"); over = true; }
            else { vp_assert(cons == prod, "sent messages leave the queue"); vp_assert(s.state == IDLE && s.event == READ, "the connection is idle and listens again"); vp_reach("all sent"); }
        }
    }
    for (int i = 0; i < RING; i++) if (slots[i]) { vp_release(slots[i]->msg); vp_release(slots[i]); }
    vp_assert(vp_live == 0, "sent messages are released, waiting ones stay in their slots");
}
#pragma CPROVER check pop
