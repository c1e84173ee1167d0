/* P09: the real handshake (worker.c) with the real request parser and upgrade decision (header.c): a request arriving in pieces CH is answered by
 * exactly one complete HTTP response. '?' in the request is an arbitrary ordinary character. Socket, queue, clock, locale, regular expressions,
 * SHA-1/base64 and plug-ins are the harness's. WANT is the expected status, XEXT/XPROTO the negotiated extensions and subprotocol. */
#include "vp.h"
#include <string.h>
#include <errno.h>
#include <regex.h>
#include <time.h>
#include <sys/stat.h>
#include "alloc.h"
#include "worker.h"
#include "server.h"
#include "session.h"
#include "header.h"
#include "message.h"
#include "ringbuf.h"
#include "error.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef RFULL
#define RFULL 0
#endif
#ifndef RE
#define RE -1       /* regular expression: -1 none configured, 0 matches, 1 does not, 2 fails */
#endif
#ifndef ERR_AT
#define ERR_AT -1
#endif
#ifndef EINTR_AT
#define EINTR_AT -1
#endif
#ifndef PROTOS
#define PROTOS 3    /* available: 1 echo, 2 chat */
#endif
#ifndef OKS
#define OKS 3
#endif
#ifndef ACC
#define ACC 0
#endif
#ifndef XEXT
#define XEXT ""
#endif
#ifndef XPROTO
#define XPROTO ""
#endif
#ifndef ICON
#define ICON 0      /* bytes of the icon; -1: not configured, -2: missing, -3: stat fails */
#endif
#ifndef SHA
#define SHA 1
#endif
#ifndef MAXALL
#define MAXALL 700
#endif
#ifndef MAXHDR
#define MAXHDR (MAXALL - 60)
#endif
#ifndef MAXURI
#define MAXURI 40
#endif
#ifndef HOSTS
#define HOSTS 0
#endif
#ifndef ORIGINS
#define ORIGINS 0
#endif
#ifndef KEYS
#define KEYS "dGhlIHNhbXBsZSBub25jZQ=="
#endif
#define ACCEPT "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="
#define GUID "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
#define DATE "Fri, 20 Nov 2026 02:05:00 GMT"
static const char T[] = REQ; enum { N = sizeof T - 1 };
static char txt[N + 1];
#if VP_NATIVE
static void vp_wild_byte(char *p, unsigned char v) { vp_assume(v > ' ' && v != ',' && v != ';' && v != ':' && v != '=' && v != 127); *p = (char)v; }
#else
void vp_wild_byte(char *p, unsigned char v);
#endif
extern void WSS_read(wss_server_t *server, wss_session_t *session);
static const int CHS[] = CH; enum { NC = sizeof CHS / sizeof CHS[0] };
static wss_server_t srv; static wss_config_t cfg; static wss_session_t *s; static regex_t re;
void *WSS_copy(void *ptr, size_t size) { void *b; if (ptr == NULL || (b = WSS_malloc(size)) == NULL) return NULL; return memcpy(b, ptr, size); }
/* plug-ins */
static wss_subprotocol_t chat, echo; static wss_extension_t xa, xb; static int opened[2], closed[2], connects, ncalls;
static bool w(const char *n, const char *x, size_t l) { for (size_t i = 0; i <= l; i++) if (n[i] != x[i]) return false; return true; }
wss_subprotocol_t *WSS_find_subprotocol(char *n) { size_t l = strlen(n); return l != 4 ? NULL : (PROTOS & 2) && w(n, "chat", 4) ? &chat : (PROTOS & 1) && w(n, "echo", 4) ? &echo : NULL; }
wss_extension_t *WSS_find_extension(char *n) { size_t l = strlen(n); return l != 4 ? NULL : w(n, "x-aa", 4) ? &xa : w(n, "x-bb", 4) ? &xb : NULL; }
static void op(int i, char *param, char **acc, bool *valid) { (void)param; int k = ncalls++; *valid = (OKS >> k) & 1; if (*valid) opened[i]++; if ((ACC >> k) & 1) { char *a = WSS_malloc(4); if (a == NULL) { if (*valid) opened[i]--; *valid = false; } else { memcpy(a, "p=1", 4); *acc = a; } } }
static void opa(int fd, char *p, char **a, bool *v) { vp_assert(fd == 7, "own descriptor"); op(0, p, a, v); }
static void opb(int fd, char *p, char **a, bool *v) { vp_assert(fd == 7, "own descriptor"); op(1, p, a, v); }
static void cla(int fd) { vp_assert(fd == 7 && opened[0] == 1, "only an opened extension is closed"); closed[0]++; opened[0]--; }
static void clb(int fd) { vp_assert(fd == 7 && opened[1] == 1, "only an opened extension is closed"); closed[1]++; opened[1]--; }
static int path_s, path_e, ck_s, ck_e;
static bool eqs(const char *p, int a, int e) { bool r = true; for (int i = a; i < e; i++) r = r && p[i - a] == txt[i]; return r && p[e - a] == 0; }
static wss_subprotocol_t *who;
static void conn(int fd, char *ip, int port, char *path, char *ck) {
    vp_assert(fd == 7 && port == 4711 && ip != NULL && ip[0] == 'i', "the application is told which connection this is"); connects++;
    vp_assert(path != NULL && eqs(path, path_s, path_e), "with the target of its request"); vp_assert(ck_s ? ck != NULL && eqs(ck, ck_s, ck_e) : ck == NULL, "and its cookies");
}
static void cn_echo(int fd, char *ip, int port, char *path, char *ck) { who = &echo; conn(fd, ip, port, path, ck); }
static void cn_chat(int fd, char *ip, int port, char *path, char *ck) { who = &chat; conn(fd, ip, port, path, ck); }
/* socket and queue */
static int cur, blocked, dead; static size_t at;
ssize_t vp_read(int fd, void *buf, size_t n) {
    vp_assert(fd == 7 && n == cfg.size_buffer, "reads come from the connection");
    static int intr; if (cur == EINTR_AT && !intr) { intr = 1; errno = EINTR; return -1; }
    if (cur == ERR_AT) { errno = ECONNRESET; dead = 1; return -1; }
    if (blocked || cur >= NC) { errno = EAGAIN; return -1; }
    size_t m = CHS[cur] < 0 ? -CHS[cur] : CHS[cur];      /* negative: more data is available at once */
    char *b = buf; const char *z = T; 
#if VP_NATIVE
    memcpy(b, txt + at, m);
#else
    extern void vp_wild_copy(char *, const char *, size_t); (void)z; vp_wild_copy(b, txt + at, m);
#endif
    at += m; blocked = CHS[cur] > 0; cur++;
    return (ssize_t)m;
}
enum { OUT = 512 };                                        /* kept in rows: reading a character is cheap for the solver's front end */
#define ROWS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define DEFROW(k) static char o##k[32];
#define ATROW(k) case k: return o##k + i % 32;
ROWS(DEFROW)
static char *cell(size_t i) { vp_assert(i < OUT, "a response of ordinary size"); switch (i / 32) { ROWS(ATROW) default: return o0; } }
#define O(i_) (*cell((size_t)(i_)))
 static size_t no; static int writes, queued; static bool done_hs_at_connect;
ssize_t vp_write(int fd, const void *p, size_t n) { vp_assert(fd == 7 && n > 0, "own descriptor"); vp_assert(no + n <= OUT, "one response"); const char *c = p; for (size_t i = 0; i < n && no + i < OUT; i++) O(no + i) = c[i]; no += n; writes++; return (ssize_t)n; }
ssize_t ringbuf_acquire(ringbuf_t *r, ringbuf_worker_t **wk, size_t n) { (void)r; (void)n; *wk = (ringbuf_worker_t *)r; vp_assert(queued == 0 && writes == 0, "a request has one response"); return RFULL ? -1 : 0; }
void ringbuf_produce(ringbuf_t *r, ringbuf_worker_t **wk) { (void)r; *wk = NULL; queued++; }
size_t ringbuf_consume(ringbuf_t *r, size_t *off) { (void)r; *off = 0; return queued; }
void ringbuf_release(ringbuf_t *r, size_t n) { (void)r; vp_assert((int)n <= queued, "no more than queued"); queued -= (int)n; }
/* library */
int regexec(const regex_t *r, const char *p, size_t n, regmatch_t *m, int f) { (void)n; (void)m; (void)f; vp_assert(r == &re && eqs(p, path_s, path_e), "the target is matched against the configured pattern"); return RE == 0 ? 0 : RE == 1 ? REG_NOMATCH : REG_ESPACE; }
size_t regerror(int e, const regex_t *r, char *b, size_t n) { (void)e; (void)r; if (n) b[0] = 0; return 0; }
char *setlocale(int c, const char *l) { (void)c; (void)l; static char t[] = "C"; return t; }
static struct tm tmv; struct tm *gmtime(const time_t *t) { (void)t; return &tmv; }
size_t strftime(char *b, size_t n, const char *f, const struct tm *t) { (void)f; (void)t; vp_assert(n >= sizeof DATE, "room for the date"); memcpy(b, DATE, sizeof DATE); return sizeof DATE - 1; }
#if !VP_NATIVE
double log10(double x) { int v = (int)x, d = 0; vp_assert(v > 0, "the logarithm of a positive number"); while (v >= 10) { v /= 10; d++; } return d; }
#endif
size_t WSS_base64_encode_sha1(char *key, size_t n, char **acc) {
    vp_assert(n == sizeof KEYS - 1 + sizeof GUID - 1, "the accept value is that of the key and the fixed GUID");
    const char *k = KEYS GUID; bool same = true; for (size_t i = 0; i < sizeof KEYS - 1 + sizeof GUID - 1; i++) same = same && key[i] == k[i];
    vp_assert(same, "the accept value is that of the key and the fixed GUID");
    if ((*acc = WSS_malloc(28)) == NULL) return 0;
    memcpy(*acc, ACCEPT, 28); return 28;
}
static char icon[8];
size_t WSS_sha1(char *s_, size_t n, char **h) { vp_assert((int)n == ICON && s_[0] == icon[0], "the hash is that of the icon"); for (int i = 0; i < 20; i++) (*h)[i] = (char)(i * 13); return 20; }
int vp_access(const char *p, int m) { (void)m; vp_assert(p == cfg.favicon, "the configured icon"); return ICON == -2 ? -1 : 0; }
int vp_stat_(const char *p, void *st) { (void)st; vp_assert(p == cfg.favicon, "the configured icon"); return ICON == -3 ? -1 : 0; }
int stat(const char *restrict p, struct stat *restrict st) { return vp_stat_(p, st); }
size_t vp_strload(char *p, char **str) { vp_assert(p == cfg.favicon, "the configured icon"); char *b = WSS_malloc(ICON > 0 ? ICON + 1 : 1); *str = b; if (b == NULL) return 0; for (int i = 0; i < ICON; i++) b[i] = icon[i]; if (ICON >= 0) b[ICON > 0 ? ICON : 0] = 0; return ICON > 0 ? ICON : 0; }

/* ---- the response as a client reads it ---- */
static int hn, hs[12], hc[12], he[12], body;
static char low(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
static int find(const char *name, int n) { int r = -1; for (int i = 0; i < hn; i++) if (hc[i] - hs[i] == n) { bool m = true; for (int k = 0; k < n; k++) m = m && low(O(hs[i] + k)) == low(name[k]); if (m) { vp_assert(r < 0, "a header occurs once"); r = i; } } return r; }
static void has(const char *name, int n, const char *v, int m) { int i = find(name, n); vp_assert(i >= 0, "the response has the header"); if (i >= 0) { bool r = he[i] - hc[i] - 1 == m; for (int k = 0; r && k < m; k++) r = O(hc[i] + 1 + k) == v[k]; vp_assert(r, "with the right value"); } }
#define HAS(N_, V) has(N_, (int)sizeof(N_) - 1, V, (int)sizeof(V) - 1)
#define NOT(N_) vp_assert(find(N_, (int)sizeof(N_) - 1) < 0, "the response has no other header of that kind")
static bool starts(int a, const char *x, int n) { for (int i = 0; i < n; i++) if (O(a + i) != x[i]) return false; return true; }
static void response(int code, const char *reason, int rn) {
    vp_assert(no > 20 && starts(0, "HTTP/1.1 ", 9), "a response starts with a status line of HTTP/1.1");
    vp_assert(O(9) == '0' + code / 100 && O(10) == '0' + code / 10 % 10 && O(11) == '0' + code % 10 && O(12) == ' ' && starts(13, reason, rn) && O(13 + rn) == '\r' && O(14 + rn) == '\n', "with the status and its reason");
    int i = 15 + rn; hn = 0; body = 0;
    for (int k = 0; k < 12; k++) {
        if (O(i) == '\r' && O(i + 1) == '\n') { body = i + 2; break; }
        hs[hn] = i; while (i < (int)no && O(i) != ':' && O(i) != '\r') i++;
        vp_assert(i + 1 < (int)no && O(i) == ':' && i > hs[hn], "a header line has a name"); hc[hn] = i++;
        while (i < (int)no && O(i) != '\r' && O(i) != '\n' && O(i) != 0) i++;
        he[hn] = i; vp_assert(i + 1 < (int)no && O(i) == '\r' && O(i + 1) == '\n', "and a value, and ends with CRLF"); i += 2; hn++;
    }
    vp_assert(body > 0, "an empty line ends the headers");
}
static int number(int i) { int v = 0; for (int k = hc[i] + 2; k < he[i]; k++) { vp_assert(O(k) >= '0' && O(k) <= '9', "a number"); v = v * 10 + (O(k) - '0'); } return v; }

void vp_main(void) {
    srv.config = &cfg; cfg.size_buffer = N > 0 ? N : 1; cfg.size_header = MAXHDR; cfg.size_uri = MAXURI; cfg.size_payload = MAXALL - MAXHDR - MAXURI; cfg.favicon = ICON == -1 ? NULL : "icon";
    if (RE >= 0) srv.re = &re;
    static char *allowed[1] = { "good" }; if (HOSTS) { cfg.hosts = allowed; cfg.hosts_length = 1; } if (ORIGINS) { cfg.origins = allowed; cfg.origins_length = 1; }
    xa.open = opa; xb.open = opb; xa.close = cla; xb.close = clb; echo.name = "echo"; chat.name = "chat"; echo.connect = cn_echo; chat.connect = cn_chat;
    s = vp_raw0(sizeof *s); s->fd = 7; s->ip = "ip"; s->port = 4711; s->messages = vp_raw0(sizeof(wss_message_t *)); s->messages_count = 1; s->ringbuf = vp_raw0(8); s->state = READING;
    for (int i = 0; i < N; i++) { if (T[i] == '?') vp_wild_byte(txt + i, vp_u8()); else txt[i] = T[i]; }
    for (int i = 0; i < (ICON > 0 ? ICON : 0); i++) icon[i] = (char)vp_u8();
    { int i = 4; path_s = i; while (i < N && T[i] != ' ' && T[i] != '\r') i++; path_e = i; }
    for (int i = 0; i + 8 < N; i++) if (T[i] == 'C' && T[i + 1] == 'o' && T[i + 2] == 'o' && T[i + 6] == ':') { ck_s = i + 8; ck_e = ck_s; while (T[ck_e] != '\r') ck_e++; }
    vp_fail_at = FAIL;
    int events = 0;
    while (events < NC + 1 && !s->closing && queued == 0 && writes == 0 && (cur < NC || events == 0)) {
        blocked = 0; s->event = NONE; events++;
        WSS_read(&srv, s);
        if (writes == 0 && !s->closing) { vp_assert(s->event == READ, "an incomplete request is waited for"); vp_assert(s->state == READING && !s->handshaked && connects == 0, "an incomplete request changes nothing"); vp_reach("waits for more"); }
    }
    vp_assert(queued == 0, "what is queued is sent");
    bool oom = FAIL > 0 && vp_alloc_calls >= FAIL;
    vp_assert(connects == 1 || s->header == NULL || s->header->ws_protocol == NULL, "a subprotocol that was not told of the connection is not told of its end");
    if (writes == 0) { vp_assert(s->closing ? (oom || RFULL) : WANT == 0, "a complete request is answered, unless the server cannot"); vp_reach("no answer"); }
    else {
        vp_assert(no > 0, "there is a response"); for (size_t i = 0; i < no; i++) vp_assert(O(i) != 0 || (ICON > 0 && s->header == NULL && (int)i >= (int)no - ICON), "a response has no stray bytes");
        if (s->handshaked) {
            vp_reach("upgraded");
            vp_assert(WANT == 101, "only a valid request is upgraded");
            response(101, "Switching Protocols", 19);
            vp_assert(body == (int)no, "nothing follows the handshake response");
            HAS("Upgrade", " websocket"); HAS("Connection", " Upgrade"); HAS("Sec-WebSocket-Accept", " " ACCEPT);
            if (sizeof XPROTO > 1) HAS("Sec-WebSocket-Protocol", " " XPROTO); else NOT("Sec-WebSocket-Protocol");
            if (oom && opened[0] + opened[1] == 0) NOT("Sec-WebSocket-Extensions"); else if (sizeof XEXT > 1) HAS("Sec-WebSocket-Extensions", " " XEXT); else NOT("Sec-WebSocket-Extensions");
            NOT("Content-Length"); NOT("Transfer-Encoding");
            vp_assert(connects == 1 && s->header != NULL && s->header->ws_protocol == who && who == (sizeof XPROTO > 1 && XPROTO[0] == 'c' ? &chat : &echo), "the negotiated subprotocol is told of the connection once");
            vp_assert(closed[0] == 0 && closed[1] == 0, "the negotiated extensions stay open");
            vp_assert(!s->closing && s->state == IDLE && s->event == READ, "the connection waits for frames");
            unsigned m = s->header->ws_extensions_count; vp_assert((int)m == opened[0] + opened[1], "the opened extensions are the negotiated ones");
            WSS_free_header(s->header);
        } else {
            vp_reach("refused");
            vp_assert(oom || WANT == 200 || WANT >= 400, "a request is answered as it deserves");
            int c = oom && starts(9, "500", 3) ? 500 : oom && WANT == 200 && !starts(9, "200", 3) ? 404 : oom && WANT == 101 ? 426 : WANT;
            if (c == 200) response(200, "OK", 2); else if (c == 400) response(400, "Bad Request", 11); else if (c == 403) response(403, "Forbidden", 9); else if (c == 404) response(404, "Not Found", 9);
            else if (c == 405) response(405, "Method Not Allowed", 18); else if (c == 413) response(413, "Payload Too Large", 17); else if (c == 414) response(414, "URI Too Long", 12); else if (c == 426) response(426, "Upgrade Required", 16);
            else if (c == 431) response(431, "Request Header Fields Too Large", 31); else if (c == 500) response(500, "Internal Server Error", 21); else if (c == 501) response(501, "Not Implemented", 15); else if (c == 505) response(505, "HTTP Version Not Supported", 26);
            int l = find("Content-Length", 14); vp_assert(l >= 0 && number(l) == (int)no - body, "the announced length is that of the body");
            NOT("Sec-WebSocket-Accept"); NOT("Sec-WebSocket-Protocol"); NOT("Sec-WebSocket-Extensions");
            if (c == 426) { HAS("Upgrade", " websocket"); HAS("Connection", " Upgrade"); HAS("Sec-WebSocket-Version", " 13"); }
            if (c == 501) HAS("Sec-WebSocket-Version", " 13, 8, 7");
            if (c == 200) { vp_assert((int)no - body == ICON, "the icon is the body"); for (int i = 0; i < ICON; i++) vp_assert(O(body + i) == icon[i], "the icon is the body"); HAS("Etag", " 000D1A2734414E5B6875828F9CA9B6C3D0DDEAF7"); HAS("Content-Type", " image/x-icon"); }
            vp_assert(connects == 0 && s->header == NULL, "a refused request leaves nothing behind");
            vp_assert(opened[0] == 0 && opened[1] == 0, "extensions opened for a refused request are closed");
            vp_assert(dead ? s->closing : !s->closing && s->state == IDLE && s->event == READ, "the connection waits for the next request");
        }
    }
    if (s->header != NULL && !s->handshaked) { for (unsigned i = 0; i < s->header->ws_extensions_count; i++) opened[s->header->ws_extensions[i]->ext == &xb]--; WSS_free_header(s->header); }
    if (!s->handshaked) vp_assert(opened[0] == 0 && opened[1] == 0, "no extension stays open that nobody uses");
    vp_assert(vp_live == 0, "nothing else is held");
}
