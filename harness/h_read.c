/* P11 receive loop: the real WSS_read + frame parser + UTF-8 validator against a sequential reference receiver.
 * NF frames of payload lengths LEN, mask bits MASKS, opcode OPC[i] and FIN[i] (the last frame: every opcode and FIN value when -1), TOT bytes in all; the byte stream
 * arrives in NC reads of sizes CH; after read k with EAG[k] the socket reports EAGAIN (the server waits for the next event). */
#include "vp.h"
#include "worker.h"
#include "server.h"
#include "session.h"
#include "frame.h"
#include "message.h"
#include "ringbuf.h"
#include "error.h"
#include <errno.h>
#include "utf8.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"

static const int LENS[] = LEN; static const int MASKED[] = MASKS; static const int OPS[] = OPC; static const int FINS[] = FIN;
static const int CHS[] = CH; static const int EAGS[] = EAG;
#ifndef SIZE_FRAME
#define SIZE_FRAME 8192
#endif
#ifndef MAX_FRAMES
#define MAX_FRAMES 1000
#endif
#ifndef EXT
#define EXT 0
#endif
#ifndef RSV
#define RSV 0
#endif
#ifndef RSVF
#define RSVF 0
#endif
#define MAXB (CAPB)
enum { MSG = 1, PONG, CLOSE };
typedef struct { int type, op, len; uint8_t b[CAPB + 2]; } ev_t;
static ev_t got[NF + 2]; static int ngot, jobs, after_close;
static int cur, blocked; static size_t at; static char *stream;
static int ext_frames, ext_msgs, vp_wrote;

/* ---- environment of the receive loop ---- */
ssize_t vp_read(int fd, void *buf, size_t n) {
    vp_assert(fd == 7, "reads come from the connection's descriptor");
#ifdef EINTR_AT
    static int intr; if (cur == EINTR_AT && !intr) { intr = 1; errno = EINTR; return -1; }
#endif
#ifdef ERR_AT
    if (cur == ERR_AT) { errno = ECONNRESET; return -1; }
#endif
    if (blocked || cur >= NC) { errno = EAGAIN; return -1; }
    size_t m = CHS[cur];
    vp_assert(n >= m, "buffer size is the configured one");
    char *b = buf;
    for (size_t i = 0; i < m; i++) b[i] = stream[at + i];
    at += m; blocked = EAGS[cur]; cur++;
    return (ssize_t)m;
}
#ifdef TLS      /* the same stream through the real TLS functions; WW_AT: before read WW_AT the library first has to write; ZR: no more data is reported as a closed stream */
#ifndef WW_AT
#define WW_AT -1
#endif
#ifndef ZR
#define ZR 0
#endif
#include <openssl/ssl.h>
static char tls; static int tls_err = SSL_ERROR_NONE, ww, ww_done, drained; static unsigned long errs;
int SSL_read(SSL *x, void *buf, int n) {
    vp_assert(x == (SSL *)&tls && tls_err != SSL_ERROR_SSL, "the connection's own stream, while it works");
    if (cur == WW_AT && !ww_done) { ww = ww_done = 1; tls_err = SSL_ERROR_WANT_WRITE; return -1; }
    ssize_t r = vp_read(7, buf, (size_t)n);
    tls_err = r >= 0 ? SSL_ERROR_NONE : errno == EAGAIN ? (ZR ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_WANT_READ) : SSL_ERROR_SSL; if (tls_err == SSL_ERROR_SSL) errs = 2;
    return r < 0 && ZR ? 0 : (int)r;
}
int SSL_get_error(const SSL *x, int r) { vp_assert(x == (SSL *)&tls && (r > 0) == (tls_err == SSL_ERROR_NONE), "asked about the last call"); return tls_err; }
int SSL_write(SSL *x, const void *b, int n) { (void)b; vp_assert(x == (SSL *)&tls && n > 0, "the connection's own stream"); vp_wrote = 1; return tls_err == SSL_ERROR_NONE ? n : -1; }
unsigned long ERR_get_error(void) { return errs ? errs-- : 0; }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { (void)e; if (n) b[0] = 0; }
#endif
static void add(int type, int op, const char *p, size_t n) {
    for (int k = 0; k < ngot && k < NF + 2; k++) if (got[k].type == CLOSE) after_close = 1;
    vp_assert(ngot < NF + 2, "no more events than frames");
    if (ngot >= NF + 2) return;
    ev_t *e = &got[ngot++]; e->type = type; e->op = op; e->len = (int)n;
    for (size_t i = 0; i < n && i < CAPB + 2; i++) e->b[i] = (uint8_t)p[i];
}
#ifdef U8       /* the verdict of the UTF-8 validator is fixed per query (both values are explored); what it is asked about is checked */
static uint8_t u8b[CAPB + 2]; static size_t u8n; static int u8calls;
bool utf8_check(const char *p, size_t n) { u8calls++; u8n = n; for (size_t i = 0; i < n && i < CAPB + 2; i++) u8b[i] = (uint8_t)p[i]; return U8; }
#endif
static void on_message(int fd, wss_opcode_t op, char *m, size_t n) {
    vp_assert(fd == 7, "the application is told the right connection");
#ifdef U8
    if (op == 1) { vp_assert(u8calls > 0 && u8n == n, "text is validated as a whole before delivery"); for (size_t i = 0; i < n && i < CAPB; i++) vp_assert(u8b[i] == (uint8_t)m[i], "the delivered text is what was validated"); }
#endif
    add(MSG, op, m, n);
}
wss_error_t WSS_session_jobs_inc(wss_session_t *s) { (void)s; jobs++; return WSS_SUCCESS; }
wss_error_t WSS_session_jobs_dec(wss_session_t *s) { (void)s; jobs--; return WSS_SUCCESS; }
void WSS_message_send_frames(void *server, void *session, wss_frame_t **fr, size_t n) {
    (void)server; (void)session; jobs--;
    vp_assert(n == 1, "control frames are sent alone");
    wss_frame_t *f = fr[0];
    vp_assert(f->fin && !f->rsv1 && !f->rsv2 && !f->rsv3, "control frames sent are final and without reserved bits");
    vp_assert(f->opcode == PONG_FRAME || f->opcode == CLOSE_FRAME, "only pong and close frames are sent by the receive loop");
    vp_assert(f->payloadLength == f->applicationDataLength + f->extensionDataLength, "lengths agree");
    add(f->opcode == CLOSE_FRAME ? CLOSE : PONG, f->opcode, f->payload, f->payloadLength);
}
/* close frames the server makes itself: code only (their content is decided by its own property) */
wss_frame_t *WSS_closing_frame(wss_close_t code, char *msg) {
    wss_frame_t *f = vp_track(vp_raw0(sizeof *f));
    f->fin = 1; f->opcode = CLOSE_FRAME; f->payloadLength = f->applicationDataLength = 2;
    f->payload = vp_track(vp_raw(2)); f->payload[0] = (char)(code >> 8); f->payload[1] = (char)code;
    (void)msg; return f;
}
#if EXT
static void x_frame(int fd, void *f) { (void)fd; (void)f; ext_frames++; }
static void x_frames(int fd, wss_frame_t **f, size_t n) { (void)fd; (void)f; (void)n; ext_msgs++; }
#endif
ssize_t vp_write(int fd, const void *b, size_t n) { (void)fd; (void)b; vp_wrote = 1; return (ssize_t)n; }

#ifdef ERR_AT   /* one-slot queue for the close message of a failed read */
static int queued;
ssize_t ringbuf_acquire(ringbuf_t *r, ringbuf_worker_t **w, size_t n) { (void)r; (void)w; (void)n; return 0; }
void ringbuf_produce(ringbuf_t *r, ringbuf_worker_t **w) { (void)r; (void)w; queued++; }
size_t ringbuf_consume(ringbuf_t *r, size_t *off) { (void)r; *off = 0; return queued ? 1 : 0; }
void ringbuf_release(ringbuf_t *r, size_t n) { (void)r; (void)n; queued--; }
ringbuf_worker_t *ringbuf_register(ringbuf_t *r, unsigned i) { (void)i; return (ringbuf_worker_t *)r; }
void WSS_message_free(wss_message_t *m) { if (m) { if (m->msg) vp_release(m->msg); vp_release(m); } }
#endif

/* ---- reference receiver ---- */
typedef struct { unsigned op, fin, rsv; uint8_t p[CAPB + 2]; } fr_t;
static fr_t F[NF];
static ev_t want[NF + 2]; static int nwant; static unsigned codes;   /* codes: bit set of admissible close codes of the closing event */
#define B(c) (1u << ((c) - 1000))
static bool ref_utf8(const uint8_t *s, int n) {     /* Unicode table 3-7, byte by byte */
    int need = 0; uint8_t lo = 0x80, hi = 0xBF; bool ok = true;
    for (int i = 0; i < CAPB; i++) if (i < n) {
        uint8_t c = s[i];
        if (need == 0) {
            lo = 0x80; hi = 0xBF;
            if (c < 0x80) need = 0;
            else if (c >= 0xC2 && c <= 0xDF) need = 1;
            else if (c >= 0xE0 && c <= 0xEF) { need = 2; if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; }
            else if (c >= 0xF0 && c <= 0xF4) { need = 3; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; }
            else ok = false;
        } else { if (c < lo || c > hi) ok = false; lo = 0x80; hi = 0xBF; need--; }
    }
#ifdef U8
    (void)ok; return U8;
#endif
    return ok && need == 0;
}
static bool frag; static unsigned fop; static uint8_t acc[CAPB]; static int nacc, nfrag;
static bool rclosed;
static void ref_upto(int from, int to) {      /* frames from..to-1 have arrived completely */
    bool closed = rclosed;
    for (int i = from; i < to; i++) if (!closed) {
        fr_t *f = &F[i]; int n = LENS[i]; bool ctl = f->op >= 8; codes = 0;
        if (f->rsv && !EXT) codes |= B(1002);
        if ((f->op >= 3 && f->op <= 7) || f->op >= 11) codes |= B(1003) | B(1002);
        if (!MASKED[i]) codes |= B(1002);
        if (ctl && !f->fin) codes |= B(1002);
        if (n > SIZE_FRAME) codes |= B(1009);
        if (ctl && n > 125) codes |= B(1002) | B(1009);
        if (!codes && f->op == 8) {
            if (n == 1) codes |= B(1002);
            if (n >= 2) {
                unsigned c = (unsigned)f->p[0] << 8 | f->p[1];
                if (!ref_utf8(f->p + 2, n - 2)) codes |= B(1007);
                if (c < 1000 || (c >= 1004 && c <= 1006) || (c >= 1015 && c < 3000) || c >= 5000) codes |= B(1002);
            }
            if (!codes) { ev_t *e = &want[nwant++]; e->type = CLOSE; e->op = 8; e->len = n; for (int j = 0; j < n; j++) e->b[j] = f->p[j]; closed = true; continue; }
        }
        if (!codes && f->op == 9) { ev_t *e = &want[nwant++]; e->type = PONG; e->op = 10; e->len = n; for (int j = 0; j < n; j++) e->b[j] = f->p[j]; continue; }
        if (!codes && f->op == 10) continue;
        if (!codes) {
            if (f->op == 0 ? !frag : frag) codes |= B(1002);
            else {
                nfrag = f->op ? 1 : nfrag + 1;
                if (nfrag > MAX_FRAMES) codes |= B(1009);
                if (f->op) { fop = f->op; nacc = 0; }
                for (int j = 0; j < n; j++) acc[nacc + j] = f->p[j];
                nacc += n; frag = !f->fin;
                if (f->fin) {
                    if (fop == 1 && !ref_utf8(acc, nacc)) codes |= B(1007);
                    if (!codes) { ev_t *e = &want[nwant++]; e->type = MSG; e->op = (int)fop; e->len = nacc; for (int j = 0; j < nacc; j++) e->b[j] = acc[j]; }
                }
            }
        }
        if (codes) { want[nwant].type = CLOSE; want[nwant].len = -1; nwant++; closed = true; frag = false; }
    }
    rclosed = closed;
}

static void check(void) {
    vp_assert(!after_close, "nothing is delivered or sent after a close frame");
    vp_assert(ngot <= nwant, "no event beyond those the frames call for");
    for (int i = 0; i < NF + 1; i++) if (i < ngot && i < nwant) {
        vp_assert(got[i].type == want[i].type, "messages, pongs and close in the order of the frames");
        if (want[i].len >= 0) {
            vp_assert(got[i].len == want[i].len && (want[i].type != MSG || got[i].op == want[i].op), "opcode and length of the event");
            for (int j = 0; j < CAPB; j++) if (j < want[i].len) vp_assert(got[i].b[j] == want[i].b[j], "content of the event");
        } else if (got[i].type == CLOSE) {
            unsigned c = (unsigned)got[i].b[0] << 8 | got[i].b[1];
            vp_assert(got[i].len == 2 && c >= 1000 && c < 1032 && (codes & B(c)), "close code matches the violation");
        }
    }
    vp_assert(ngot == nwant, "every complete message, ping and violation is acted upon");
}

static void run(int lop, int lfin) {
    static wss_server_t srv; static wss_config_t cfg; static wss_session_t s; static wss_header_t h; static wss_subprotocol_t sp;
    static const wss_session_t s0; static const ev_t e0; static const fr_t f0; s = s0;
    for (int i = 0; i < NF + 2; i++) got[i] = want[i] = e0;
    for (int i = 0; i < NF; i++) F[i] = f0;
    ngot = nwant = jobs = after_close = cur = blocked = 0; at = 0; ext_frames = ext_msgs = 0; codes = 0; frag = false; fop = 0; nacc = nfrag = 0; vp_wrote = 0;
#ifdef U8
    u8calls = 0;
#endif
#ifdef ERR_AT
    static wss_message_t *slots[1]; static ringbuf_t *rb; rb = vp_raw0(64); s.ringbuf = rb; s.messages = slots; s.messages_count = 1; queued = 0;
#endif

    cfg.size_buffer = TOT + 1; cfg.size_frame = SIZE_FRAME; cfg.max_frames = MAX_FRAMES;
    srv.config = &cfg;
    sp.message = on_message; h.ws_protocol = &sp; h.ws_type = RFC6455;
#if EXT
    static wss_extension_t x; static wss_ext_t xe; static wss_ext_t *xa[1];
    x.inframe = x_frame; x.inframes = x_frames; xe.ext = &x; xa[0] = &xe; h.ws_extensions = xa; h.ws_extensions_count = 1;
#endif
    s.fd = 7; s.handshaked = true; s.header = &h; s.state = READING;
    stream = vp_raw(TOT);
    size_t o = 0;
    for (int i = 0; i < NF; i++) {
        F[i].op = OPS[i] >= 0 ? (unsigned)OPS[i] : (unsigned)lop;
        F[i].fin = FINS[i] >= 0 ? (unsigned)FINS[i] : (unsigned)lfin; F[i].rsv = RSVF == i ? RSV : 0;
        stream[o++] = (char)(F[i].fin << 7 | F[i].rsv << 4 | F[i].op);
        if (LENS[i] > 125) { stream[o++] = (char)(MASKED[i] << 7 | 126); stream[o++] = (char)(LENS[i] >> 8); stream[o++] = (char)LENS[i]; }
        else stream[o++] = (char)(MASKED[i] << 7 | LENS[i]);
        uint8_t k[4];
        if (MASKED[i]) for (int j = 0; j < 4; j++) { k[j] = vp_u8(); stream[o++] = (char)k[j]; }
        for (int j = 0; j < LENS[i]; j++) {
            F[i].p[j] = vp_u8();
            stream[o++] = (char)(MASKED[i] ? F[i].p[j] ^ k[j & 3] : F[i].p[j]);
        }
    }
    vp_assert(o == TOT, "harness: stream length");
    int nf = 0; rclosed = false;
    bool closed = false, done = false;
    int nx = 0; size_t nat = 0;
    while (nx < NC) {
        cur = nx; at = nat; blocked = 0;
        do nat += CHS[nx++]; while (nx < NC && !EAGS[nx - 1]);
        int nf1 = 0; size_t e = 0;
        for (int i = 0; i < NF; i++) { e += 2 + (LENS[i] > 125 ? 2 : 0) + 4 * MASKED[i] + LENS[i]; if (e <= nat) nf1 = i + 1; }
        ref_upto(nf, nf1); nf = nf1;
        if (closed) break;
        s.event = NONE; s.state = READING;
#ifdef TLS
        s.ssl = (SSL *)&tls; s.ssl_connected = true; ww = 0;
        int g0 = ngot;
        WSS_read(&srv, &s);
        if (ww) { vp_assert(ngot == g0 && s.event == WRITE && s.state == READING && !s.closing, "a read that has to write waits until that is possible and goes on reading then"); vp_reach("continued after writing"); s.event = NONE; WSS_read(&srv, &s); }
#else
        WSS_read(&srv, &s);
#endif
        done = cur == NC;
#ifdef ERR_AT
        if (cur == ERR_AT) { vp_assert(s.closing && vp_wrote, "a failed read closes the connection"); vp_reach("read error"); break; }
#endif
        check();
        vp_assert(jobs == 0, "every send is accounted as a job");
        for (int k = 0; k < NF + 2; k++) if (k < ngot && got[k].type == CLOSE) closed = true;
        vp_assert(!s.closing || closed, "the connection is not dropped without a close frame");
        if (!closed) vp_assert(s.event == READ, "the server goes on listening for data");
    }
    if (done && !closed) {
        if (!frag) vp_reach("all messages delivered"); else vp_reach("unfinished message kept");
    }
    if (closed) vp_reach("closed");
#if EXT
    if (done && !closed && !frag) vp_assert(ext_frames >= ext_msgs && ext_msgs >= ngot, "extensions see every frame and every message");
#endif
    for (size_t i = 0; i < NF + 1; i++) if (i < s.frames_length) WSS_free_frame(s.frames[i]);
    if (s.frames) vp_release(s.frames);
    if (s.payload) vp_release(s.payload);
#if defined(TLS) && defined(ERR_AT)
    if (slots[0]) { vp_release(slots[0]->msg); vp_release(slots[0]); }      /* a message that cannot be sent stays in its slot until the connection is deleted */
#endif
    vp_assert(vp_live == 0, "no memory is lost");
}
void vp_main(void) {
#ifdef ALLOPS
    for (int op = 0; op < 16; op++) for (int fin = 0; fin < 2; fin++) run(op, fin);
#else
    run(0, 0);
#endif
}
#pragma CPROVER check pop
