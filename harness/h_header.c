/* P07: the real request parser on request texts in which every '?' is an arbitrary ordinary character (not a control character, space or , ; : =).
 * The reference below reads the structure off the template and compares what the parser reports with the request lines. Plug-in lookups are the
 * harness's: subprotocols "chat" and "echo", extensions "x-aa" and "x-bb". */
#include "vp.h"
#include <string.h>
#include "alloc.h"
#include "header.h"
#include "config.h"
#include "httpstatuscodes.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef WEIRD
#define WEIRD 0      /* texts whose meaning is unspecified: only safety is checked */
#endif
#ifndef OKS
#define OKS 1      /* which offers are accepted */
#endif
#ifndef ACC
#define ACC OKS    /* which calls return parameters */
#endif
#ifndef MAXURI
#define MAXURI 60
#endif
#ifndef MAXHDR
#define MAXHDR 600
#endif
#ifndef MAXPAY
#define MAXPAY 100
#endif
#ifdef ARB
#define ARB_ 1
#else
#define ARB_ 0
#endif
static const char T[] = REQ; enum { N = sizeof T - 1 };
static char txt[N + 1];
#if VP_NATIVE
static void vp_wild_byte(char *p, unsigned char v) { vp_assume(v > ' ' && v != ',' && v != ';' && v != ':' && v != '=' && v != 127); *p = (char)v; }
#else
void vp_wild_byte(char *p, unsigned char v);
#endif
void *WSS_copy(void *ptr, size_t size) { void *b; if (ptr == NULL || (b = WSS_malloc(size)) == NULL) return NULL; return memcpy(b, ptr, size); }      /* its contract is decided with h_alloc.c */
static wss_subprotocol_t chat, echo; static wss_extension_t xa, xb;
static bool is(const char *n, char a, char b, char c, char d) { return n[0] == a && n[1] == b && n[2] == c && n[3] == d && n[4] == 0; }
wss_subprotocol_t *WSS_find_subprotocol(char *n) { vp_assert(n != NULL, "looks up a name"); size_t l = strlen(n); if (l != 4) return NULL; return is(n, 'c', 'h', 'a', 't') ? &chat : is(n, 'e', 'c', 'h', 'o') ? &echo : NULL; }
wss_extension_t *WSS_find_extension(char *n) { vp_assert(n != NULL, "looks up a name"); size_t l = strlen(n); if (l != 4) return NULL; return is(n, 'x', '-', 'a', 'a') ? &xa : is(n, 'x', '-', 'b', 'b') ? &xb : NULL; }
enum { MC = 4, PL = 24 };
static struct { int x; char par[PL]; bool ok; char acc; } call[MC]; static int ncalls;
static void op(int i, int fd, char *param, char **acc, bool *valid) {
    vp_assert(fd == 7 && param != NULL, "an extension is opened for the connection with its parameters"); vp_assert(ncalls < MC, "extensions are opened once per offer");
    int k = ncalls++; call[k].x = i;
    size_t l = strlen(param); vp_assert(l < PL, "parameters end"); for (size_t j = 0; j < l && j < PL - 1; j++) call[k].par[j] = param[j];
    call[k].ok = (OKS >> k) & 1; *valid = call[k].ok;
    if ((ACC >> k) & 1) { char *a = vp_track(vp_raw0(2)); a[0] = call[k].acc = 'p'; *acc = a; }
}
static void opa(int fd, char *param, char **acc, bool *valid) { op(0, fd, param, acc, valid); }
static void opb(int fd, char *param, char **acc, bool *valid) { op(1, fd, param, acc, valid); }

/* ---- reference: structure from the template T, characters from txt ---- */
enum { ML = 12 };
static int nl, ns[ML], ne[ML], vs[ML], ve[ML], ll[ML];      /* header lines: name and trimmed value, length */
static int ms, me, ps, pe, hs, he, pay = -1; static bool e400;
static bool blank(char c) { return c == ' ' || c == '\t'; }
static void scan(void) {
    int i = 0, j;
    for (j = i; j < N && T[j] != '\r'; j++) {}
    if (j == N || T[j + 1] != '\n') e400 = true;
    int p = i, e[3], b[3], n = 0;
    while (p < j && n < 3) { while (p < j && T[p] == ' ') p++; if (p == j) break; b[n] = p; while (p < j && T[p] != ' ') p++; e[n] = p; n++; }
    ms = n > 0 ? b[0] : 0; me = n > 0 ? e[0] : 0; ps = n > 1 ? b[1] : 0; pe = n > 1 ? e[1] : 0; hs = n > 2 ? b[2] : 0; he = n > 2 ? e[2] : 0;
    if (n < 3) e400 = true;
    while (j < N) {
        if (T[j + 1] != '\n') { e400 = true; return; }
        i = j + 2;
        if (i + 1 < N + 1 && T[i] == '\r' && T[i + 1] == '\n') { pay = i + 2; return; }
        if (i >= N) break;
        for (j = i; j < N && T[j] != '\r'; j++) {}
        if (nl < ML) {
            ll[nl] = j - i; int c = i; while (c < j && T[c] != ':') c++;
            ns[nl] = i; ne[nl] = c < j ? c : i;      /* without a colon there is no field */
            int s = c < j ? c + 1 : j, t = j; while (s < t && blank(T[s])) s++; while (t > s && blank(T[t - 1])) t--;
            vs[nl] = s; ve[nl] = t; nl++;
        }
    }
    e400 = true;      /* no empty line */
}
static char low(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
static bool named(int l, const char *name, int n) { if (ne[l] - ns[l] != n) return false; bool r = true; for (int i = 0; i < n; i++) r &= low(txt[ns[l] + i]) == low(name[i]); return r; }
static bool eqs(const char *p, int s, int e) { bool r = true; for (int i = s; i < e; i++) r = r && p[i - s] == txt[i]; return r && p[e - s] == 0; }
static bool lit(int s, int e, const char *w, int n) { if (e - s != n) return false; bool r = true; for (int i = 0; i < n; i++) r &= txt[s + i] == w[i]; return r; }
static bool pre(int s, int e, const char *w, int n) { if (e - s < n) return false; bool r = true; for (int i = 0; i < n; i++) r &= low(txt[s + i]) == w[i]; return r; }
#define NAMED(l, S) named(l, S, (int)sizeof(S) - 1)
static void field(const char *p, const char *a, int an, const char *b, int bn) {      /* the field reports the value of the last line of that name */
    bool later = false;
    for (int l = nl - 1; l >= 0; l--) {
        bool m = named(l, a, an) || (b && named(l, b, bn));
        if (m && !later) { if (vs[l] == ve[l]) vp_assert(p == NULL || p[0] == 0, "an empty header value is reported as empty"); else vp_assert(p != NULL && eqs(p, vs[l], ve[l]), "a field holds exactly the value of its header line"); }
        later = later || m;
    }
    if (!later) vp_assert(p == NULL, "no field is reported that the request does not have");
}
#define FIELD(p, S) field(p, S, (int)sizeof(S) - 1, NULL, 0)
static int version(int s, int e) { int v = 0; bool stop = false; for (int i = s; i < e && i < s + 6; i++) { if (txt[i] < '0' || txt[i] > '9') stop = true; if (!stop) v = v * 10 + (txt[i] - '0'); } return v; }
static bool supported(int v) { return v == 4 || v == 5 || v == 6 || v == 7 || v == 8 || v == 13; }
static int item(int *p, int end, int *s, int *e, char sep) {      /* next item of a list in T[*p..end) */
    if (*p >= end) return 0;
    int q = *p; while (q < end && T[q] != sep) q++;
    int a = *p, b = q; while (a < b && blank(T[a])) a++; while (b > a && blank(T[b - 1])) b--;
    *s = a; *e = b; *p = q + 1; return 1;
}
static bool inside(const wss_header_t *h, const char *p) { return p == NULL || (p >= h->content && p <= h->content + N); }
#define IN(p) vp_assert(inside(h, p), "fields are parts of the request")

void vp_main(void) {
    static wss_config_t cfg; cfg.size_uri = MAXURI; cfg.size_header = MAXHDR; cfg.size_payload = MAXPAY;
    xa.open = opa; xb.open = opb;
    wss_header_t *h = vp_track(vp_raw0(sizeof *h));
    char *c = vp_raw(N + 1);
#ifdef ARB      /* arbitrary bytes altogether */
    for (int i = 0; i < N; i++) c[i] = (char)vp_u8();
#endif
    for (int i = 0; i < N; i++) { if (T[i] == '?') { if (ARB_) continue; vp_wild_byte(c + i, vp_u8()); } else c[i] = T[i]; txt[i] = c[i]; }
    c[N] = 0; h->content = vp_track(c); h->length = N;
    vp_fail_at = FAIL;
    enum HttpStatus_Code r = WSS_parse_header(7, h, &cfg);
    vp_reach("parsed");
    vp_assert(r == HttpStatus_OK || (r >= 400 && r < 600), "every request is accepted or refused with an error status");
    IN(h->method); IN(h->path); IN(h->version); IN(h->host); IN(h->ws_upgrade); IN(h->ws_connection); IN(h->ws_origin); IN(h->ws_key); IN(h->cookies); IN(h->payload); IN(h->ws_key1); IN(h->ws_key2); IN(h->ws_key3);
#if !WEIRD
    scan();
    bool e405 = !e400 || me > ms ? !lit(ms, me, "GET", 3) : false;
    bool e414 = pe - ps > MAXURI;
    bool bad = pe > ps && !(txt[ps] == '/' || pre(ps, pe, "ws://", 5) || pre(ps, pe, "wss://", 6) || pre(ps, pe, "http://", 7) || pre(ps, pe, "https://", 8));
    bool e505 = he > hs && !lit(hs, he, "HTTP/1.1", 8);
    int sum = 0; for (int l = 0; l < nl; l++) sum += ll[l];
    bool e431 = sum > MAXHDR, e413 = pay >= 0 && N - pay > MAXPAY;
    bool dup = false, maydup = false, seen = false, seenk = false, any = false, anyk = false;
    int best = 0;
    for (int l = 0; l < nl; l++) {
        if (NAMED(l, SEC_WEBSOCKET_VERSION)) {
            if (seen) dup = true;
            if (any) maydup = true;
            any = true;
            int p = vs[l], s, e; for (int k = 0; k < 6 && item(&p, ve[l], &s, &e, ','); k++) { int v = version(s, e); if (supported(v)) { seen = true; if (v > best) best = v; } }
        }
        if (NAMED(l, SEC_WEBSOCKET_KEY)) { if (seenk) dup = true; if (anyk) maydup = true; anyk = true; if (ve[l] > vs[l]) seenk = true; }
    }
    bool must = e400 || e405 || e414 || bad || e505 || e431 || e413 || dup;
    if (r == HttpStatus_OK) {
        vp_assert(!must, "a request that is malformed, unsupported or over a limit is refused");
        vp_reach("accepted");
        vp_assert(h->method != NULL && eqs(h->method, ms, me) && h->path != NULL && eqs(h->path, ps, pe) && h->version != NULL && eqs(h->version, hs, he), "method, target and version are those of the request line");
        vp_assert(h->payload != NULL && h->payload == h->content + pay, "the payload is what follows the empty line");
        FIELD(h->host, HOST_STRING); FIELD(h->ws_upgrade, UPGRADE_STRING); FIELD(h->ws_connection, CONNECTION_STRING); FIELD(h->cookies, COOKIE_STRING);
        FIELD(h->ws_key, SEC_WEBSOCKET_KEY); FIELD(h->ws_key1, SEC_WEBSOCKET_KEY1); FIELD(h->ws_key2, SEC_WEBSOCKET_KEY2);
        field(h->ws_origin, ORIGIN_STRING, sizeof(ORIGIN_STRING) - 1, SEC_WEBSOCKET_ORIGIN, sizeof(SEC_WEBSOCKET_ORIGIN) - 1);
        bool hixie = false; for (int l = 0; l < nl; l++) hixie = hixie || NAMED(l, SEC_WEBSOCKET_KEY1) || NAMED(l, SEC_WEBSOCKET_KEY2) || NAMED(l, WEBSOCKET_PROTOCOL_STRING);
        vp_assert(h->ws_version == best, "the version is the highest supported one the request offers");
        if (!hixie && best > 0) vp_assert((int)h->ws_type == best, "the protocol type is that of the version");
        wss_subprotocol_t *want = NULL;
        for (int l = 0; l < nl; l++) if (NAMED(l, SEC_WEBSOCKET_PROTOCOL) || NAMED(l, WEBSOCKET_PROTOCOL_STRING)) {
            int p = vs[l], s, e; for (int k = 0; k < 6 && item(&p, ve[l], &s, &e, ','); k++) if (want == NULL) want = lit(s, e, "chat", 4) ? &chat : lit(s, e, "echo", 4) ? &echo : NULL;
        }
        vp_assert(h->ws_protocol == want, "the subprotocol is the first available one the client lists");
        int k = 0, used = 0; bool inuse[2] = { false, false };
        for (int l = 0; l < nl; l++) if (NAMED(l, SEC_WEBSOCKET_EXTENSIONS)) {
            int p = vs[l], s, e; for (int q = 0; q < 6 && item(&p, ve[l], &s, &e, ','); q++) {
                int f = s; while (f < e && T[f] != ';') f++;
                int b = f; while (b > s && blank(T[b - 1])) b--;
                int g = f < e ? f + 1 : e; while (g < e && blank(T[g])) g++;
                for (int x = 0; x < 2; x++) if (lit(s, b, x ? "x-bb" : "x-aa", 4) && !inuse[x]) {
                    vp_assert(k < ncalls && call[k].x == x, "each offered extension that is available is opened, in the order offered");
                    if (k < MC) {
                        vp_assert(eqs(call[k].par, g, e), "an extension is opened with exactly its parameters");
                        if (call[k].ok) {
                            vp_assert(used < (int)h->ws_extensions_count, "an extension that accepts is used");
                            if (used < (int)h->ws_extensions_count) { wss_ext_t *u = h->ws_extensions[used]; vp_assert(u->ext == (x ? &xb : &xa) && eqs(u->name, s, b) && (call[k].acc ? (u->accepted != NULL && u->accepted[0] == 'p') : u->accepted == NULL), "the extension, its name and the parameters it accepted are kept"); }
                            used++; inuse[x] = true;
                        }
                    }
                    k++;
                }
            }
        }
        vp_assert(k == ncalls, "nothing but the offered extensions is opened, each at most once");
        vp_assert(used == (int)h->ws_extensions_count, "exactly the extensions that accepted are used");
    } else {
        vp_reach("refused");
        bool cause = r == HttpStatus_BadRequest ? (e400 || bad || maydup) : r == HttpStatus_MethodNotAllowed ? e405 : r == HttpStatus_URITooLong ? e414 : r == HttpStatus_HTTPVersionNotSupported ? e505
                   : r == HttpStatus_RequestHeaderFieldsTooLarge ? e431 : r == HttpStatus_PayloadTooLarge ? e413 : r == HttpStatus_InternalServerError ? (FAIL > 0) : false;
        vp_assert(cause, "a refusal has its cause in the request");
    }
#endif
    long n = (long)h->ws_extensions_count, acc = 0;
    for (long i = 0; i < n && i < MC; i++) if (h->ws_extensions[i]->accepted != NULL) acc++;
    vp_assert(vp_live == 2 + (n ? 1 : 0) + 2 * n + acc, "nothing is held but the header and its extensions");
    WSS_free_header(h);
    vp_assert(vp_live == 0, "everything is released with the header");
}
