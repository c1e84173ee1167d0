/* P08: the real upgrade decision on a parsed request. '?' in the texts is an arbitrary ordinary character, "-" means the field is absent. The regular
 * expression and the base64 decoder (decided by P10) answer arbitrarily. */
#include "vp.h"
#include <string.h>
#include <regex.h>
#include "alloc.h"
#include "header.h"
#include "httpstatuscodes.h"
#include "b64.h"
#include "config.h"
#ifndef PATH
#define PATH "/?b"
#endif
#ifndef HOST
#define HOST "?oo?"
#endif
#ifndef ORIGIN
#define ORIGIN "g??d"
#endif
#ifndef UPGRADE
#define UPGRADE "?????????"
#endif
#ifndef CONNECTION
#define CONNECTION "k?e, U?????e"
#endif
#ifndef KEY
#define KEY "????"
#endif
#ifndef HOSTS
#define HOSTS 2
#endif
#ifndef ORIGINS
#define ORIGINS 2
#endif
#ifndef RE
#define RE 1
#endif
#if VP_NATIVE
static void vp_wild_byte(char *p, unsigned char v) { vp_assume(v > ' ' && v != ',' && v != ';' && v != ':' && v != '=' && v != 127); *p = (char)v; }
#else
void vp_wild_byte(char *p, unsigned char v);
#endif
#define FIELD(name, text) static char name[sizeof text];
FIELD(path, PATH) FIELD(host, HOST) FIELD(origin, ORIGIN) FIELD(upgrade, UPGRADE) FIELD(conn, CONNECTION) FIELD(conn0, CONNECTION) FIELD(key, KEY)
#define FILL(name, text) ((text)[0] == '-' && sizeof text == 2 ? NULL : fill(name, text, sizeof text - 1))
static char *fill(char *b, const char *t, size_t n) { for (size_t i = 0; i < n; i++) { if (t[i] == '?') vp_wild_byte(b + i, vp_u8()); else b[i] = t[i]; } b[n] = 0; return b; }
static regex_t re; static int re_result; static bool re_called, key_called, key_null; static unsigned key_len;
int regexec(const regex_t *r, const char *p, size_t n, regmatch_t *m, int f) { (void)n; (void)m; (void)f; vp_assert(RE && r == &re && p == path, "the target is matched against the configured pattern"); re_called = true; return re_result; }
size_t regerror(int e, const regex_t *r, char *b, size_t n) { (void)e; (void)r; if (n) b[0] = 0; return 0; }
unsigned char *b64_decode_ex(const char *s, size_t n, size_t *out) {
    vp_assert(s == key && n == sizeof KEY - 1, "the whole key is decoded"); key_called = true; *out = key_len;
    if (key_null) return NULL;
    return WSS_malloc(1);
}
unsigned char *b64_decode(const char *s, size_t n) { (void)s; (void)n; vp_assert(0, "the length of the decoded key is needed"); return NULL; }
wss_subprotocol_t *WSS_find_subprotocol(char *n) { (void)n; return NULL; }
wss_extension_t *WSS_find_extension(char *n) { (void)n; return NULL; }
void *WSS_copy(void *p, size_t n) { (void)p; (void)n; return NULL; }
static char lc(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
static bool prefix(const char *b, size_t n, const char *w, size_t m) { bool r = n >= m; for (size_t i = 0; i < m && i < n; i++) r = r && lc(b[i]) == w[i]; return r; }
static bool is(const char *b, size_t n, const char *w, size_t m) { bool r = n == m; for (size_t i = 0; i < m && i < n; i++) r = r && b[i] == w[i]; return r; }
#define ABSENT(t) ((t)[0] == '-' && sizeof t == 2)

void vp_main(void) {
    static wss_header_t h; static wss_config_t cfg;
    static char *hl[2] = { "good", "ho.st:80" }, *ol[2] = { "http://x", "good" };
    cfg.hosts = HOSTS ? hl : NULL; cfg.hosts_length = HOSTS; cfg.origins = ORIGINS ? ol : NULL; cfg.origins_length = ORIGINS;
    h.path = FILL(path, PATH); h.host = FILL(host, HOST); h.ws_origin = FILL(origin, ORIGIN); h.ws_upgrade = FILL(upgrade, UPGRADE); h.ws_connection = FILL(conn, CONNECTION); h.ws_key = FILL(key, KEY);
    for (size_t i = 0; i < sizeof conn; i++) conn0[i] = conn[i];
    h.ws_type = TYPE; h.version = "HTTP/1.1"; h.method = "GET";
    { unsigned r = vp_u8(); re_result = r == 0 ? 0 : r == 1 ? REG_NOMATCH : REG_ESPACE; } key_null = vp_u8() & 1; key_len = vp_u8();
    enum HttpStatus_Code c = WSS_upgrade_header(&h, &cfg, RE ? &re : NULL);

    bool bad_path = prefix(path, sizeof PATH - 1, "http://", 7) || prefix(path, sizeof PATH - 1, "https://", 8);
    bool no_match = RE && re_result == REG_NOMATCH, re_error = RE && re_result == REG_ESPACE;
    bool bad_host = HOSTS && (ABSENT(HOST) || !(is(host, sizeof HOST - 1, "good", 4) || (HOSTS > 1 && is(host, sizeof HOST - 1, "ho.st:80", 8))));
    bool bad_origin = ORIGINS && (ABSENT(ORIGIN) || !(is(origin, sizeof ORIGIN - 1, "http://x", 8) || (ORIGINS > 1 && is(origin, sizeof ORIGIN - 1, "good", 4))));
    bool bad_upgrade = ABSENT(UPGRADE) || !prefix(upgrade, sizeof UPGRADE - 1, "websocket", 9);
    bool any = false;                                   /* a token that begins with upgrade */
    if (!ABSENT(CONNECTION)) { size_t i = 0, n = sizeof CONNECTION - 1; const char *t = CONNECTION; while (i < n) { while (i < n && (t[i] == ' ' || t[i] == ',')) i++; size_t e = i; while (e < n && t[e] != ',') e++; any = any || prefix(conn0 + i, e - i, "upgrade", 7); i = e; } }
    bool bad_key = ABSENT(KEY) || key_null || key_len != 16, bad_type = TYPE != RFC6455 && TYPE != HYBI10 && TYPE != HYBI07;
    bool c426 = bad_path || bad_upgrade || !any || bad_key, good = !(c426 || no_match || re_error || bad_host || bad_origin || bad_type);
    vp_assert((c == HttpStatus_SwitchingProtocols) == good, "a request is upgraded exactly if it is a valid and allowed one");
    if (c == HttpStatus_SwitchingProtocols) { vp_reach("upgraded"); vp_assert(key_called && (!RE || re_called), "the key and the target were looked at"); }
    else {
        vp_reach("refused");
        vp_assert(c == HttpStatus_UpgradeRequired || c == HttpStatus_NotFound || c == HttpStatus_InternalServerError || c == HttpStatus_BadRequest || c == HttpStatus_Forbidden || c == HttpStatus_NotImplemented, "a refusal has a status of its own");
        vp_assert(c != HttpStatus_UpgradeRequired || c426 || TYPE <= HIXIE76, "426 tells of a missing upgrade"); vp_assert(c != HttpStatus_NotFound || no_match, "404 tells of the target");
        vp_assert(c != HttpStatus_InternalServerError || re_error, "500 tells of a failure"); vp_assert(c != HttpStatus_BadRequest || bad_host, "400 tells of the host");
        vp_assert(c != HttpStatus_Forbidden || bad_origin, "403 tells of the origin"); vp_assert(c != HttpStatus_NotImplemented || bad_type, "501 tells of the version");
    }
    vp_assert(vp_live == 0, "nothing is held");
}
