/* P30: the real plug-in registries; the dynamic loader and the plug-ins are the harness's. KIND 0: subprotocols, 1: extensions.
 * NENT configured files with names from templates ('?' = any byte a file name part may have). */
#include "vp.h"
#include "shadow/hash_pre.h"
#ifndef FAIL
#define FAIL 0
#endif
#include "config.h"
#if KIND == 0
#include "subprotocols.h"
#include "message.h"
#define LOAD WSS_load_subprotocols
#define FIND WSS_find_subprotocol
#define DESTROY WSS_destroy_subprotocols
typedef wss_subprotocol_t plug_t;
static const char *const NEED[] = { "setAllocators", "onInit", "onConnect", "onMessage", "onWrite", "onClose", "onDestroy" };
#else
#include "extensions.h"
#define LOAD WSS_load_extensions
#define FIND WSS_find_extension
#define DESTROY WSS_destroy_extensions
typedef wss_extension_t plug_t;
static const char *const NEED[] = { "setAllocators", "onInit", "onOpen", "inFrame", "inFrames", "outFrame", "outFrames", "onClose", "onDestroy" };
#endif
#define NNEED ((int)(sizeof NEED / sizeof *NEED))
static void vp_hread(void) { } static void vp_hwrite(void) { }
#include "hash_model.h"
static const char *const TPL[] = { TPLS };
#define NENT ((int)(sizeof TPL / sizeof *TPL))
static char *path[2], *conf[2]; static int start[2], nlen[2]; static char name_[2][12];
static int handle_[2], opened[2], closed[2], allocs_[2], inits[2], destroyed[2], missing[2]; static bool fails[2]; static const char *err = "loader";
void *vp_dlopen(const char *p, int flags) { (void)flags; for (int i = 0; i < NENT; i++) if (p == path[i]) { if (fails[i]) return NULL; opened[i]++; return &handle_[i]; } vp_assert(0, "only configured files are loaded"); return NULL; }
int vp_dlclose(void *h) { for (int i = 0; i < NENT; i++) if (h == &handle_[i]) { vp_assert(opened[i] > closed[i], "a library is closed once"); closed[i]++; return 0; } vp_assert(0, "only loaded libraries are closed"); return 0; }
char *vp_dlerror(void) { return (char *)err; }
#if KIND == 0
static void *sendf;
static void init0(char *c, WSS_send s) { vp_assert(c == conf[0], "a plug-in gets its own configuration"); vp_assert(s == WSS_message_send, "and the send function"); vp_assert(allocs_[0] == 1, "allocators come first"); inits[0]++; }
static void init1(char *c, WSS_send s) { vp_assert(c == conf[1], "a plug-in gets its own configuration"); vp_assert(s == WSS_message_send, "and the send function"); vp_assert(allocs_[1] == 1, "allocators come first"); inits[1]++; }
#else
static void init0(char *c) { vp_assert(c == conf[0], "a plug-in gets its own configuration"); vp_assert(allocs_[0] == 1, "allocators come first"); inits[0]++; }
static void init1(char *c) { vp_assert(c == conf[1], "a plug-in gets its own configuration"); vp_assert(allocs_[1] == 1, "allocators come first"); inits[1]++; }
#endif
static void al(int i, void *a, void *b, void *c) { vp_assert(a != NULL && b != NULL && c != NULL && a == (void *)WSS_malloc && b == (void *)WSS_realloc_normal && c == (void *)WSS_free_normal, "plug-ins get the server's allocators"); vp_assert(opened[i] == 1 && !closed[i], "while loaded"); allocs_[i]++; }
static void alloc0(WSS_malloc_t a, WSS_realloc_t b, WSS_free_t c) { al(0, (void *)a, (void *)b, (void *)c); }
static void alloc1(WSS_malloc_t a, WSS_realloc_t b, WSS_free_t c) { al(1, (void *)a, (void *)b, (void *)c); }
static void des0(void) { vp_assert(opened[0] == 1 && !closed[0], "a plug-in is told before its library goes"); destroyed[0]++; }
static void des1(void) { vp_assert(opened[1] == 1 && !closed[1], "a plug-in is told before its library goes"); destroyed[1]++; }
static char fns[2][16];   /* stand-ins for the other functions: never called here */
void *vp_dlsym(void *h, const char *n) {
    int i = h == &handle_[0] ? 0 : 1; vp_assert(h == &handle_[i] && opened[i] && !closed[i], "symbols come from an open library");
    for (int k = 0; k < NNEED; k++) if (strcmp(n, NEED[k]) == 0) {
        if (missing[i] == k) return NULL;
        if (k == 0) return i ? (void *)alloc1 : (void *)alloc0;
        if (k == 1) return i ? (void *)init1 : (void *)init0;
        if (k == NNEED - 1) return i ? (void *)des1 : (void *)des0;
        return &fns[i][k];
    }
    return NULL;
}
char *vp_basename(char *p) { for (int i = 0; i < NENT; i++) if (p == path[i]) return p + start[i]; char *r = p; for (int i = 0; i < 16 && p[i] != 0; i++) if (p[i] == '/') r = p + i + 1; return r; }
char *vp_xpg(char *p) { return vp_basename(p); }
static bool same(const char *q, int i) { for (int k = 0; k <= nlen[i]; k++) if (q[k] != name_[i][k]) return false; return true; }
void vp_main(void) {
    static wss_config_t cfg; vp_fail_at = FAIL;
    for (int i = 0; i < NENT; i++) {
        const char *t = TPL[i]; int n = 0; while (t[n]) n++;
        path[i] = vp_str(n); start[i] = 0;
        for (int k = 0; k < n; k++) {
            if (t[k] != '?') { vp_assume(path[i][k] == t[k]); path[i][k] = t[k]; } else vp_assume(path[i][k] != '/' && path[i][k] != '.' && path[i][k] != 0);
            if (t[k] == '/') start[i] = k + 1;
        }
        nlen[i] = 0; while (t[start[i] + nlen[i]] != 0 && t[start[i] + nlen[i]] != '.') { name_[i][nlen[i]] = path[i][start[i] + nlen[i]]; nlen[i]++; }
        conf[i] = vp_bool() ? vp_str(1) : NULL;
        missing[i] = (int)vp_range(0, NNEED); if (FAIL) vp_assume(missing[i] == NNEED); fails[i] = FAIL ? false : vp_bool();
    }
    if (NENT == 2 && nlen[0] == nlen[1]) { bool eq = true; for (int k = 0; k < nlen[0]; k++) if (name_[0][k] != name_[1][k]) eq = false; vp_assume(!eq); }
    char **files = vp_raw0(2 * sizeof(char *)), **cs = vp_raw0(2 * sizeof(char *));
    for (int i = 0; i < NENT; i++) { files[i] = path[i]; cs[i] = conf[i]; }
#if KIND == 0
    cfg.subprotocols = files; cfg.subprotocols_config = cs; cfg.subprotocols_length = NENT;
#else
    cfg.extensions = files; cfg.extensions_config = cs; cfg.extensions_length = NENT;
#endif
    char *q = vp_str(QN);
    vp_assert(FIND(q) == NULL && FIND(NULL) == NULL, "nothing is found before anything is loaded");
    LOAD(NULL);
    LOAD(&cfg);
    bool oom = FAIL && vp_alloc_calls >= FAIL; int live = 0; plug_t *r = FIND(q); bool hit = false;
    for (int i = 0; i < NENT; i++) {
        bool ok = !fails[i] && missing[i] == NNEED;
        if (!oom) vp_assert(inits[i] == (ok ? 1 : 0), "exactly the complete libraries are initialised, once"); else vp_assert(inits[i] <= (ok ? 1 : 0), "no incomplete library is initialised");
        vp_assert(allocs_[i] == inits[i], "each gets its allocators once");
        vp_assert(opened[i] - closed[i] == inits[i], "exactly the libraries in use stay open");
        vp_assert(destroyed[i] == 0, "plug-ins live on");
        live += inits[i];
        if (inits[i] && same(q, i)) {
            hit = true; vp_assert(r != NULL, "a loaded plug-in is found by its name"); vp_reach("found");
            vp_assert((void *)r->handle == (void *)&handle_[i] && (void *)r->alloc == (i ? (void *)alloc1 : (void *)alloc0) && (void *)r->init == (i ? (void *)init1 : (void *)init0) && (void *)r->destroy == (i ? (void *)des1 : (void *)des0), "it is the plug-in of that name");
#if KIND == 0
            vp_assert((void *)r->connect == &fns[i][2] && (void *)r->message == &fns[i][3] && (void *)r->write == &fns[i][4] && (void *)r->close == &fns[i][5], "with each function in its place");
#else
            vp_assert((void *)r->open == &fns[i][2] && (void *)r->inframe == &fns[i][3] && (void *)r->inframes == &fns[i][4] && (void *)r->outframe == &fns[i][5] && (void *)r->outframes == &fns[i][6] && (void *)r->close == &fns[i][7], "with each function in its place");
#endif
            for (int k = 0; k <= nlen[i]; k++) vp_assert(r->name[k] == name_[i][k], "and has its name");
        }
    }
    if (!hit) { vp_assert(r == NULL, "nothing is found under any other name"); vp_reach("not found"); }
    vp_assert(vp_live == 2 * live, "a loaded plug-in holds its record and name, nothing else is held");
    DESTROY();
    for (int i = 0; i < NENT; i++) { vp_assert(destroyed[i] == inits[i], "each plug-in is told once at the end"); vp_assert(opened[i] == closed[i], "every library is closed"); }
    vp_assert(vp_live == 0, "nothing is left"); vp_assert(FIND(q) == NULL, "nothing is found afterwards");
}
