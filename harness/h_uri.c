/* P21: the real construction of the request-target pattern (src/http.c WSS_http_regex_init). Lists of configured hosts, paths and queries
 * of concrete shape and arbitrary contents; the regular-expression compiler is the harness, which reads the pattern it is given. */
#include "vp.h"
#include "alloc.h"
#include "http.h"
#include "server.h"
#include <regex.h>
#ifndef FAIL
#define FAIL 0
#endif
#ifndef SSL
#define SSL 0
#endif
static const int HL[] = { HLEN -1 }, PL[] = { PLEN -1 }, QL[] = { QLEN -1 };
static char *lst[3][3]; static int cnt[3];
static char ref_[400]; static size_t nref;
static int comps; static bool bad; static regex_t *given; static long live0;
static void out(const char *s) { for (size_t i = 0; i < 40 && s[i] != 0; i++) ref_[nref++] = s[i]; }
static void alts(int w, const int *l) { for (int i = 0; i < cnt[w]; i++) { if (i) out("|"); for (int k = 0; k < l[i]; k++) ref_[nref++] = lst[w][i][k]; } }
#ifdef VP_REPLAY
static void vp_wild_byte(char *p, unsigned char v) { vp_assume(v > ' ' && v != ',' && v != ';' && v != ':' && v != '=' && v != 127); *p = (char)v; }
#else
void vp_wild_byte(char *p, unsigned char v);
#endif
static char *arena; static int used;
static char *put(int n) { char *p = arena + used; for (int i = 0; i < n; i++) vp_wild_byte(p + i, vp_u8()); p[n] = 0; used += n + 1; return p; }
int vp_regcomp(regex_t *re, const char *p, int flags) {
    vp_assert(comps == 0, "the pattern is compiled once"); comps++; given = re;
    vp_assert((flags & REG_EXTENDED) != 0, "the pattern is an extended expression");
    vp_assert((flags & (REG_ICASE | REG_NEWLINE)) == 0, "and is matched as written");
    for (size_t i = 0; i < nref; i++) vp_assert(p[i] == ref_[i], "the pattern consists of the configured resources");
    vp_assert(p[nref] == 0, "and nothing else");
    return bad ? REG_EPAREN : 0;
}
void vp_main(void) {
    static wss_config_t cfg; static wss_server_t srv; static int ctx;
    arena = vp_raw0(40);
    const int *L[3] = { HL, PL, QL }; size_t sum = 0;
    for (int w = 0; w < 3; w++) for (cnt[w] = 0; L[w][cnt[w]] >= 0; cnt[w]++) { lst[w][cnt[w]] = put(L[w][cnt[w]]); sum += (size_t)L[w][cnt[w]]; if (cnt[w]) sum++; }
    cfg.hosts = lst[0]; cfg.hosts_length = cnt[0]; cfg.paths = lst[1]; cfg.paths_length = cnt[1]; cfg.queries = lst[2]; cfg.queries_length = cnt[2];
    cfg.port_http = 80; cfg.port_https = 443;
    srv.config = &cfg; srv.port = PORT; if (SSL) srv.ssl_ctx = &ctx; srv.re = NULL;
    bad = FAIL ? false : vp_bool();
    /* what the documentation promises */
    out("^(ws"); if (SSL) out("s"); out("://("); alts(0, HL); out(")(:"); out(PORTS); out(")?)?/("); alts(1, PL); out(")?(\\?("); alts(2, QL); out(")(&("); alts(2, QL); out("))*)?$");
    vp_fail_at = FAIL; live0 = vp_live;
    wss_error_t r = WSS_http_regex_init(&srv);
    if (sum == 0) { vp_assert(r == WSS_SUCCESS && comps == 0 && srv.re == NULL, "nothing configured means no restriction"); vp_reach("unrestricted"); }
    else if (r == WSS_SUCCESS) {
        vp_assert(comps == 1 && !bad && srv.re != NULL && srv.re == given, "a started server has the restriction");
        vp_assert(vp_live == live0 + 1, "and nothing else is kept"); vp_reach("pattern");
    } else {
        vp_assert(bad || (FAIL && vp_alloc_calls >= FAIL), "the restriction is set up unless memory or the expression fails");
        vp_assert(srv.re == NULL, "an expression that was not compiled is not kept");
        vp_assert(vp_live == live0, "a failure leaves nothing behind"); vp_reach("refused");
    }
    if (FAIL && vp_alloc_calls >= FAIL) vp_assert(r != WSS_SUCCESS, "a failed allocation is reported");
}
