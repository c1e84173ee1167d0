#include "vp.h"
long vp_live = 0, vp_alloc_calls = 0, vp_fail_at = 0;

int vp_should_fail(void) { vp_alloc_calls++; return vp_fail_at > 0 && vp_alloc_calls == vp_fail_at; }
void *vp_track(void *p) { if (p) vp_live++; return p; }
void vp_free(void **pp) { if (*pp != NULL) { vp_live--; free(*pp); *pp = NULL; } }
void vp_release(void *p) { if (p) { vp_live--; free(p); } }

#ifdef VP_REPLAY
#include <stdio.h>
#include <unistd.h>
void *vp_raw(size_t n) { return malloc(n ? n : 1); }
void *vp_raw0(size_t n) { return calloc(1, n ? n : 1); }
void *vp_alloc_n(size_t n) { if (n == 0 || vp_should_fail()) return NULL; if (n > ((size_t)1 << 40)) return NULL; return vp_track(calloc(1, n)); }
void *vp_realloc(void **pp, size_t o, size_t n, void *fresh) {
    (void)fresh; void *old = pp ? *pp : NULL;
    if (n == 0) { if (pp) vp_free(pp); return NULL; }
    if (vp_should_fail() || n > ((size_t)1 << 40)) { if (pp) vp_free(pp); return NULL; }
    char *r = realloc(old, n); if (!r) return NULL;
    if (!old) vp_live++;
    if (o < n) memset(r + o, 0, n - o);
    return r;
}
static uint64_t *vals; static size_t nvals, cur;
uint64_t vp_next(void) { return cur < nvals ? vals[cur++] : 0; }
void vp_assume_(int c, const char *w) { if (!c) { printf("VP-ASSUME-FAILED: %s\n", w); fflush(stdout); _exit(77); } }
void vp_assert_(int c, const char *w) { if (!c) { printf("VP-ASSERT-FAILED: %s\n", w); fflush(stdout); _exit(42); } }
void vp_reach_(const char *w) { printf("VP-REACHED: %s\n", w); fflush(stdout); }
int main(int argc, char **argv) {
    if (argc > 1) {
        FILE *f = fopen(argv[1], "r"); unsigned long long v; char buf[64];
        if (!f) { perror("inputs"); return 78; }
        while (fscanf(f, "%63s", buf) == 1) { v = strtoull(buf, NULL, 10); vals = realloc(vals, (nvals + 1) * sizeof *vals); vals[nvals++] = v; }
        fclose(f);
    }
    vp_main();
    printf("VP-DONE\n");
    fflush(stdout); _exit(0);
}
#else
#ifdef VP_WILD
void vp_wcpy(char *d, const char *s);
#define VP_MARKR(d, s, z) if (!(z)) vp_wcpy(d, s)
#else
#define VP_MARKR(d, s, z)
#endif
void *vp_raw(size_t n) { return __CPROVER_allocate(n ? n : 1, 0); }
void *vp_raw0(size_t n) { return __CPROVER_allocate(n ? n : 1, 1); }
void *vp_alloc_n(size_t n) { if (n == 0 || vp_should_fail()) return NULL; return vp_track(__CPROVER_allocate(n, 1)); }
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
void *vp_realloc(void **pp, size_t o, size_t n, void *fresh) {
    char *old = pp ? (char *)*pp : NULL;
    if (n == 0) { if (pp) vp_free(pp); return NULL; }
    if (vp_should_fail()) { if (pp) vp_free(pp); return NULL; }
    char *r = fresh; vp_live++;
    if (old) {
        size_t os = __CPROVER_OBJECT_SIZE(old);
        __CPROVER_assert(__CPROVER_POINTER_OFFSET(old) == 0 && !__CPROVER_same_object(old, r), "realloc of a block start");
        for (size_t i = 0; i < os && i < n; i++) { r[i] = (o < n && i >= o) ? 0 : old[i]; VP_MARKR(r + i, old + i, o < n && i >= o); }
        for (size_t i = os; i < o && i < n; i++) r[i] = (char)0xBE;
        vp_live--; free(old);
    }
    return r;
}
void *vp_realloc_typed(void **pp, size_t o, size_t n, void *fresh) {   /* blocks of pointers */
    char *old = pp ? (char *)*pp : NULL;
    if (n == 0) { if (pp) vp_free(pp); return NULL; }
    if (vp_should_fail()) { if (pp) vp_free(pp); return NULL; }
    vp_live++;
    if (old) {
        size_t os = __CPROVER_OBJECT_SIZE(old);
        for (size_t i = 0; i < os / 8 && i < n / 8; i++) if (!(o < n && i * 8 >= o)) ((void **)fresh)[i] = ((void **)old)[i];
        for (size_t i = os / 8; i < o / 8 && i < n / 8; i++) ((void **)fresh)[i] = (void *)0xBEBEBEBEBEBEBEBEul;
        vp_live--; free(old);
    }
    return fresh;
}
/* blocks of pointers are copied pointer-wise (the size expression names a pointer type), everything else byte-wise */
void *vp_realloc_any(void **pp, size_t o, size_t n, void *fresh, const char *expr) {
    for (size_t i = 0; expr[i] != 0; i++) if (expr[i] == '*' && expr[i + 1] == ')') return vp_realloc_typed(pp, o, n, fresh);
    return vp_realloc(pp, o, n, fresh);
}
#pragma CPROVER check pop
int main(void) { vp_main(); return 0; }
#endif

char *vp_bytes(size_t n) { char *p = vp_raw(n); for (size_t i = 0; i < n; i++) p[i] = (char)vp_u8(); return p; }
char *vp_str(size_t n) { char *p = vp_raw(n + 1); for (size_t i = 0; i < n; i++) { uint8_t c = vp_u8(); vp_assume(c != 0); p[i] = (char)c; } p[n] = 0; return p; }
char *vp_lit(const char *s) { size_t n = strlen(s); char *p = vp_raw(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
