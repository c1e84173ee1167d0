/* P25: the real allocation wrappers over a model allocator that returns arbitrary content or nothing; sizes concrete, content and failures symbolic. */
#include "vp.h"
#ifdef VP_RP
#define USE_RPMALLOC
#endif
#include "../include/alloc.h"
static struct { void *p; size_t n; bool live; } blk[8]; static int nblk; static bool may_fail; static bool failed; static int freed_null;
static int live(void) { int k = 0; for (int i = 0; i < nblk; i++) k += blk[i].live; return k; }
static void *fresh(size_t n) {
    failed = may_fail && vp_bool();
    if (failed) return NULL;
    char *p = vp_raw(n);
    for (size_t i = 0; i < n; i++) p[i] = (char)vp_u8();
    blk[nblk].p = p; blk[nblk].n = n; blk[nblk].live = true; nblk++;
    return p;
}
static int idx(void *p) { int k = -1; for (int i = 0; i < nblk; i++) if (blk[i].p == p && blk[i].live) k = i; return k; }
void m_free(void *p) { if (p == NULL) return; int k = idx(p); vp_assert(k >= 0, "only live blocks are released"); for (int i = 0; i < nblk; i++) if (i == k) blk[i].live = false; }
void *m_malloc(size_t n) { return fresh(n); }
void *m_calloc(size_t m, size_t n) { char *p = fresh(m * n); if (p) memset(p, 0, m * n); return p; }
void *m_realloc(void *o, size_t n) {
    if (o == NULL) return fresh(n);
    int k = idx(o); vp_assert(k >= 0, "only live blocks are resized");
    char *q = fresh(n); if (!q) return NULL;
    for (int i = 0; i < nblk; i++) if (i == k) { for (size_t j = 0; j < n && j < blk[i].n; j++) q[j] = ((char *)o)[j]; blk[i].live = false; }
    return q;
}
#ifdef VP_RP
void *rpmalloc(size_t n) { return m_malloc(n); }
void *rpcalloc(size_t m, size_t n) { return m_calloc(m, n); }
void *rprealloc(void *p, size_t n) { return m_realloc(p, n); }
void rpfree(void *p) { m_free(p); }
#endif
#ifndef LO
#define LO 0
#endif
void vp_main(void) {
#if MODE == 0   /* zeroed memory, copies */
    for (size_t n = 0; n <= MAXN; n++) {
        nblk = 0; may_fail = true;
        char *p = WSS_malloc(n);
        vp_assert((p == NULL) == (n == 0 || failed), "allocation gives a block exactly if the size is not zero and memory is available");
        if (p) { for (size_t i = 0; i < n; i++) vp_assert(p[i] == 0, "fresh memory is zero"); vp_assert(blk[0].n >= n && live() == 1, "the block is as large as asked"); p[n - 1] = 1; void *q = p; WSS_free(&q); vp_assert(q == NULL && live() == 0, "releasing resets the pointer"); WSS_free(&q); }
        failed = false; nblk = 0;
        for (size_t m = 0; m <= 3; m++) {
            nblk = 0; failed = false;
            p = WSS_calloc(m, n);
            vp_assert((p == NULL) == (n == 0 || m == 0 || failed), "allocation gives a block exactly if the size is not zero and memory is available");
            if (p) { for (size_t i = 0; i < n * m; i++) vp_assert(p[i] == 0, "fresh memory is zero"); vp_assert(blk[0].n >= n * m, "the block is as large as asked"); WSS_free_normal(p); vp_assert(live() == 0, "the block is released"); }
        }
        nblk = 0; failed = false;
        char *src = vp_bytes(n);
        p = WSS_copy(src, n);
        vp_assert((p == NULL) == (n == 0 || failed), "a copy is made exactly if the size is not zero and memory is available");
        if (p) { for (size_t i = 0; i < n; i++) vp_assert(p[i] == src[i], "a copy has the same content"); vp_assert(p != src, "a copy is a new block"); }
        if (p) vp_reach("copied"); else vp_reach("refused");
        nblk = 0;
        vp_assert(WSS_copy(NULL, n) == NULL && nblk == 0, "copying nothing gives nothing");
    }
#else           /* resizing: old size O, new size n */
    for (size_t o = LO; o <= MAXN; o++) for (size_t n = 0; n <= MAXN; n++) {
        nblk = 0; may_fail = false; failed = false;
        char *p = o ? WSS_malloc(o) : NULL; uint8_t old[MAXN + 1];
        for (size_t i = 0; i < o; i++) { old[i] = vp_u8(); p[i] = (char)old[i]; }
        may_fail = true; failed = false;
        void *q = p;
        char *r = WSS_realloc(&q, o, n);
        vp_assert((r == NULL) == (n == 0 || failed), "resizing gives a block exactly if the new size is not zero and memory is available");
        if (r) {
            for (size_t i = 0; i < n; i++) vp_assert(r[i] == (i < o ? (char)old[i] : 0), "resizing keeps the content and zero-fills growth");
            vp_assert(live() == 1 && idx(r) >= 0, "exactly the new block is live");
            vp_reach("resized");
        } else { vp_assert(live() == 0 && q == NULL, "a failed resize releases the old block and resets its pointer"); vp_reach("refused"); }
        nblk = 0; may_fail = false; failed = false;
        p = o ? WSS_malloc(o) : NULL;
        for (size_t i = 0; i < o; i++) p[i] = (char)old[i];
        may_fail = true; failed = false;
        r = WSS_realloc_normal(p, n);
        vp_assert((r == NULL) == (n == 0 || failed), "resizing gives a block exactly if the new size is not zero and memory is available");
        if (r) { for (size_t i = 0; i < n && i < o; i++) vp_assert(r[i] == (char)old[i], "resizing keeps the content and zero-fills growth"); vp_assert(live() == 1, "exactly the new block is live"); }
        else vp_assert(live() == 0, "a failed resize releases the old block and resets its pointer");
    }
    nblk = 0; may_fail = true; failed = false;
    char *r = WSS_realloc(NULL, 0, 5);
    if (r) for (size_t i = 0; i < 5; i++) vp_assert(r[i] == 0, "resizing keeps the content and zero-fills growth");
    vp_assert((r == NULL) == failed, "resizing gives a block exactly if the new size is not zero and memory is available");
#endif
}
