/* P19: the real configuration loader over JSON documents of concrete shape and arbitrary contents. The file, the parser's result and the
 * release of that result are the harness's; the lookup in the result is the real json_value_find.
 * K: kinds of the settings (-1: the proper kind; 0..7: every setting gets one of eight kinds, rotated by K)  GK: kind of the groups, GM: which
 * groups of settings the document has
 * HOSTS/ORIGINS/PATHS/QUERIES: lengths of the listed strings, -k: an element of kind k instead; LK: kind of the lists themselves
 * SUBS/EXTS: entries as file kind * 10 + config kind, 99: not an object */
#include "vp.h"
#include "shadow/json_pre.h"
#include "alloc.h"
#include "config.h"
#include "str.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef PROOT
#define PROOT 0     /* 1: no file, 2: no parse, 3: the root is no object */
#endif
#if !defined VP_WILD
static void vp_wild_byte(char *p, unsigned char v) { *p = (char)v; }
#elif defined VP_REPLAY
static void vp_wild_byte(char *p, unsigned char v) { vp_assume(v > ' ' && v != ',' && v != ';' && v != ':' && v != '=' && v != 127); *p = (char)v; }
#else
void vp_wild_byte(char *p, unsigned char v);
#endif
enum { ABSENT, NUL, BOO, INT, DBL, STR, ARR, OBJ };
static char *arena; static int used; static int freed, parsed; static json_value root;

static char *text(int n) { char *p = arena + used; for (int i = 0; i < n; i++) vp_wild_byte(p + i, vp_u8()); p[n] = 0; used += n + 1; return p; }
static json_value *mk(int kind, int len) {
    json_value *v = vp_raw0(sizeof *v); v->parent = NULL;
    switch (kind) {
        case NUL: v->type = json_null; break;
        case BOO: v->type = json_boolean; v->u.boolean = vp_bool(); break;
        case INT: v->type = json_integer; v->u.integer = (json_int_t)vp_u64(); break;
        case DBL: v->type = json_double; v->u.dbl = 1.5; break;
        case STR: v->type = json_string; v->u.string.length = (unsigned)len; v->u.string.ptr = text(len); break;
        case ARR: v->type = json_array; v->u.array.length = 0; v->u.array.values = NULL; break;
        default: v->type = json_object; v->u.object.length = 0; v->u.object.values = NULL; break;
    }
    return v;
}
static json_object_entry e_root[8], e_setup[12], e_grp[5][10], e_ent[2][3][2];
static void member(json_value *o, json_object_entry *es, const char *n, json_value *v) {
    json_object_entry *e = &es[o->u.object.length]; unsigned l = 0; while (n[l]) l++;
    e->name = (char *)n; e->name_length = l; e->value = v;
    o->u.object.values = es; o->u.object.length++;
}
/* the settings */
#define LEAVES(X) \
 X(0, poll, INT, timeout_poll) X(0, read, INT, timeout_read) X(0, write, INT, timeout_write) X(0, client, INT, timeout_client) X(0, pings, INT, timeout_pings) \
 X(1, key, STR, ssl_key) X(1, cert, STR, ssl_cert) X(1, ca_file, STR, ssl_ca_file) X(1, ca_path, STR, ssl_ca_path) X(1, compression, BOO, ssl_compression) X(1, peer_cert, BOO, ssl_peer_cert) X(1, dhparam, STR, ssl_dhparam) X(1, cipher_list, STR, ssl_cipher_list) X(1, cipher_suites, STR, ssl_cipher_suites) \
 X(2, buffer, INT, size_buffer) X(2, thread, INT, size_thread) X(2, uri, INT, size_uri) X(2, header, INT, size_header) X(2, ringbuffer, INT, size_ringbuffer) X(2, payload, INT, size_payload) X(2, frame, INT, size_frame) X(2, fragmented, INT, max_frames) \
 X(3, workers, INT, pool_workers) X(3, retries, INT, pool_retries) X(5, favicon, STR, favicon) X(5, log_level, INT, log)
static const char *const GN[] = { "timeouts", "ssl", "size", "pool", "port" };
enum { NL = 26 };
static json_value *leaf[NL]; static json_value *ports[2];
static const int HL[] = { HOSTS 0 }, OL[] = { ORIGINS 0 }, PL[] = { PATHS 0 }, QL[] = { QUERIES 0 }, SP[] = { SUBS -1 }, XP[] = { EXTS -1 };
static const char *const LN[] = { "hosts", "origins", "paths", "queries" };
static json_value *els[4][3], *ent[2][3][2]; static json_value *elp[4][3], *epp[2][3]; static int nl[4], ne[2];
static wss_error_t want = WSS_SUCCESS;
static void fail_as(wss_error_t e) { if (want == WSS_SUCCESS) want = e; }
static void lists(void) {
    static const wss_error_t ERR[] = { WSS_CONFIG_INVALID_HOST, WSS_CONFIG_INVALID_ORIGIN, WSS_CONFIG_INVALID_PATH, WSS_CONFIG_INVALID_QUERY };
    const int *L[4] = { HL, OL, PL, QL };
    for (int w = 0; w < 4; w++) {
        if (LK == ABSENT) continue;
        if (LK != ARR) { member(&root, e_root, LN[w], mk(LK, 1)); continue; }
        json_value *a = mk(ARR, 0);
        for (nl[w] = 0; L[w][nl[w]] != 0; nl[w]++) { int l = L[w][nl[w]]; els[w][nl[w]] = elp[w][nl[w]] = l > 0 ? mk(STR, l == 9 ? 0 : l) : mk(-l, 0); if (l < 0) fail_as(ERR[w]); }
        a->u.array.length = (unsigned)nl[w]; a->u.array.values = nl[w] ? elp[w] : NULL;
        member(&root, e_root, LN[w], a);
    }
}
static void entries(json_value *setup) {
    static const wss_error_t ERR[] = { WSS_CONFIG_INVALID_SUBPROTOCOL, WSS_CONFIG_INVALID_EXTENSION };
    for (int w = 0; w < 2; w++) {
        const int *L = w ? XP : SP;
        if (LK == ABSENT) continue;
        if (LK != ARR) { member(setup, e_setup, w ? "extensions" : "subprotocols", mk(LK, 1)); continue; }
        json_value *a = mk(ARR, 0);
        for (ne[w] = 0; L[ne[w]] >= 0; ne[w]++) {
            int k = ne[w], l = L[k];
            if (l == 99) { epp[w][k] = mk(INT, 0); fail_as(ERR[w]); continue; }
            json_value *o = epp[w][k] = mk(OBJ, 0);
            if (l / 10 != ABSENT) member(o, e_ent[w][k], "file", ent[w][k][0] = mk(l / 10, 2));
            if (l / 10 != STR) fail_as(ERR[w]);
            if (l % 10 != ABSENT) member(o, e_ent[w][k], "config", ent[w][k][1] = mk(l % 10, 1));
        }
        a->u.array.length = (unsigned)ne[w]; a->u.array.values = ne[w] ? epp[w] : NULL;
        member(setup, e_setup, w ? "extensions" : "subprotocols", a);
    }
}
static int kind_of(int i, int proper) { return K < 0 ? proper : (i + K) % 8; }
static void settings_(json_value *setup) {
    json_value *g[5]; for (int i = 0; i < 5; i++) g[i] = mk(OBJ, 0);
    int i = 0, k;
#define PUT(gr, name, pk, dst) k = kind_of(i, pk); if (k != ABSENT && (GM >> gr & 1) && !(gr == 5 && k == OBJ)) { leaf[i] = mk(k, 2); if (gr == 5) member(setup, e_setup, #name, leaf[i]); else member(g[gr % 5], e_grp[gr % 5], #name, leaf[i]); } i++;
    LEAVES(PUT)
    if (PORTH >= 0) { ports[0] = mk(INT, 0); ports[0]->u.integer = PORTH; member(g[4], e_grp[4], "http", ports[0]); }
    if (PORTS >= 0) { ports[1] = mk(INT, 0); ports[1]->u.integer = PORTS; member(g[4], e_grp[4], "https", ports[1]); }
    for (int x = 0; x < 5; x++) if (x < 4 && !(GM >> x & 1)) continue; else if (GK == OBJ) member(setup, e_setup, GN[x], g[x]); else if (GK != ABSENT) member(setup, e_setup, GN[x], mk(GK, 1));
}
/* the surroundings */
static wss_config_t cfg; static char *filebytes; static char fname[] = "f";
size_t vp_strload(char *path, char **str) {
    vp_assert(path == fname, "the given file is loaded");
    *str = NULL; if (PROOT == 1) return 0;
    *str = filebytes = vp_alloc_n(3); return *str ? 2 : 0;
}
static json_settings *st;
json_value *json_parse_ex(json_settings *s, const json_char *json, size_t n, char *error) {
    vp_assert(json == filebytes && n == 2, "the whole file is parsed"); vp_assert(s->mem_alloc != NULL && s->mem_free != NULL, "with the server's allocator");
    for (int i = 0; i < 6; i++) error[i] = "error"[i];
    if (PROOT == 2 || (FAIL && vp_should_fail())) return NULL;
    st = s; parsed = 1; vp_live++; return &root;
}
void json_value_free_ex(json_settings *s, json_value *v) {
    vp_assert(parsed && v == &root && s == st && s->mem_free != NULL, "the parsed document is released with its allocator"); vp_assert(!freed, "only once"); freed = 1; vp_live--;
    free(arena);
}
static bool same(const json_value *v, const char *q) { const char *p = v->u.string.ptr; if (p == q) return true; for (unsigned i = 0; i <= v->u.string.length; i++) if (p[i] != q[i]) return false; return true; }
static char PT[2][7];
static bool ported(const json_value *v, int w, const char *q) {
    unsigned i = 0, l = v->u.string.length; for (; i < l; i++) if (q[i] != v->u.string.ptr[i]) return false;
    if (q[i++] != ':') return false;
    for (unsigned k = 0; k < 6; k++) { if (q[i + k] != PT[w][k]) return false; if (PT[w][k] == 0) break; }
    return true;
}
static char dstr[4];
void vp_main(void) {
    arena = vp_raw0(120);
    root.type = PROOT == 3 ? json_array : json_object; root.u.object.length = 0; root.u.object.values = NULL;
    if (PROOT != 3) {
        json_value *setup = mk(OBJ, 0);
        if (ORDER) { settings_(setup); entries(setup); member(&root, e_root, "setup", setup); lists(); }
        else { lists(); settings_(setup); entries(setup); member(&root, e_root, "setup", setup); member(&root, e_root, "other", mk(INT, 0)); }
        if (ORDER) { wss_error_t w = WSS_SUCCESS; want = w; for (int x = 0; x < 2; x++) for (int k = 0; k < ne[x]; k++) { int l = (x ? XP : SP)[k]; if (l / 10 != STR || l == 99) fail_as(x ? WSS_CONFIG_INVALID_EXTENSION : WSS_CONFIG_INVALID_SUBPROTOCOL); }
            const int *L[4] = { HL, OL, PL, QL }; static const wss_error_t ERR[] = { WSS_CONFIG_INVALID_HOST, WSS_CONFIG_INVALID_ORIGIN, WSS_CONFIG_INVALID_PATH, WSS_CONFIG_INVALID_QUERY };
            if (LK == ARR) for (int x = 0; x < 4; x++) for (int k = 0; k < nl[x]; k++) if (L[x][k] < 0) fail_as(ERR[x]); }
    }
    if (PROOT == 1) want = WSS_CONFIG_LOAD_ERROR; if (PROOT == 2) want = WSS_CONFIG_JSON_PARSE_ERROR; if (PROOT == 3) want = WSS_CONFIG_JSON_ROOT_ERROR;
    /* the defaults */
    int i = 0;
#define DEF_INT(dst) cfg.dst = 100 + i;
#define DEF_BOO(dst) cfg.dst = i & 1;
#define DEF_STR(dst) cfg.dst = dstr;
#define DEF(gr, name, pk, dst) DEF_##pk(dst) i++;
    LEAVES(DEF)
    cfg.port_http = DEFH; cfg.port_https = DEFS;
    long ph = GK == OBJ && PORTH >= 0 ? PORTH : DEFH, ps = GK == OBJ && PORTS >= 0 ? PORTS : DEFS;
    if (ph == 0 && ps == 0) fail_as(WSS_CONFIG_NO_PORT_ERROR);
    for (int w = 0; w < 2; w++) { long v = w ? ps : ph, d = 1; int k = 0; while (d * 10 <= v) d *= 10; for (; d > 0; d /= 10) PT[w][k++] = (char)('0' + v / d % 10); PT[w][k] = 0; }
    vp_fail_at = FAIL;
    wss_error_t r = WSS_config_load(&cfg, fname);
    bool oom = FAIL && vp_alloc_calls >= FAIL;
    if (r != WSS_SUCCESS) {
        vp_assert(oom || r == want, "loading fails for the reason the document gives");
        vp_assert(vp_live == 0 && parsed == freed, "a failed load leaves nothing behind"); vp_reach("failed");
    } else {
        vp_assert(want == WSS_SUCCESS && !oom, "an invalid document is refused"); vp_assert(!freed, "the document is kept while it is used");
        i = 0;
#define HAVE(k_) (GK == OBJ ? leaf[i] != NULL && kind_of(i, k_) == k_ : false)
#define HAVE5(k_) (leaf[i] != NULL && kind_of(i, k_) == k_)
#define CHK_INT(gr, name, dst) if (gr == 5 ? HAVE5(INT) : HAVE(INT)) { json_int_t v = leaf[i]->u.integer; if (gr == 0) { if (i == 4) { if (v >= 0 && v <= 0xffffffffL) vp_assert((long)cfg.dst == v, #name " is taken over"); } else if (i == 3) vp_assert((long)cfg.dst == (v < 0 ? -1 : v), #name " is taken over, none if negative"); else if (v >= -0x80000000L && v <= 0x7fffffffL) vp_assert((long)cfg.dst == (v < 0 ? -1 : v), #name " is taken over, none if negative"); }     else if (v >= 0 && v <= 0xffffffffL) vp_assert((long)cfg.dst == v, #name " is taken over"); } else vp_assert(cfg.dst == 100 + i, #name " stays at its default");
#define CHK_BOO(gr, name, dst) if (HAVE(BOO)) vp_assert(cfg.dst == !!leaf[i]->u.boolean, #name " is taken over"); else vp_assert(cfg.dst == (i & 1), #name " stays at its default");
#define CHK_STR(gr, name, dst) if (gr == 5 ? HAVE5(STR) : HAVE(STR)) { vp_assert(cfg.dst != NULL && same(leaf[i], cfg.dst), #name " is taken over"); } else vp_assert(cfg.dst == dstr, #name " stays at its default");
#define CHECK(gr, name, pk, dst) CHK_##pk(gr, name, dst) i++;
        LEAVES(CHECK)
        vp_assert(cfg.port_http == (unsigned)ph && cfg.port_https == (unsigned)ps, "the ports are taken over");
        char **got[4] = { cfg.hosts, cfg.origins, cfg.paths, cfg.queries }; int cnt[4] = { cfg.hosts_length, cfg.origins_length, cfg.paths_length, cfg.queries_length };
        int mult = 1 + (ph > 0) + (ps > 0);
        for (int w = 0; w < 4; w++) {
            vp_assert(cnt[w] == (w == 0 ? nl[w] * mult : nl[w]), "every listed resource is there, hosts also with every port");
            for (int k = 0; k < nl[w]; k++) vp_assert(got[w][k] != NULL && same(els[w][k], got[w][k]), "the resources are those listed");
            if (w == 0) for (int x = 0; x < 2; x++) if ((x ? ps : ph) > 0) for (int k = 0; k < nl[0]; k++) { int found = 0; for (int y = nl[0]; y < nl[0] * mult; y++) if (ported(els[0][k], x, got[0][y])) found = 1; vp_assert(found, "hosts are also allowed with the ports of the server"); }
        }
        vp_assert(cfg.subprotocols_length == (unsigned)ne[0] && cfg.extensions_length == (unsigned)ne[1], "every plug-in is there");
        for (int w = 0; w < 2; w++) for (int k = 0; k < ne[w]; k++) {
            char *f = w ? cfg.extensions[k] : cfg.subprotocols[k], *c = w ? cfg.extensions_config[k] : cfg.subprotocols_config[k]; int l = (w ? XP : SP)[k];
            vp_assert(f != NULL && same(ent[w][k][0], f), "the plug-in files are those listed");
            if (l % 10 == STR) vp_assert(c != NULL && same(ent[w][k][1], c), "with their configurations"); else vp_assert(c == NULL, "without a configuration there is none");
        }
        vp_reach("loaded");
    }
    vp_assert(WSS_config_free(&cfg) == WSS_SUCCESS, "a configuration can be freed");
    vp_assert(vp_live == 0 && parsed == freed, "freeing releases everything");
    vp_assert(WSS_config_free(&cfg) == WSS_SUCCESS && vp_live == 0, "and can be repeated");
}
