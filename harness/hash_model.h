/* the table behind shadow/hash_pre.h; included by the harness after vp_hread()/vp_hwrite() */
static struct { void *el; int key; const char *s; size_t n; } vp_ht[VP_HN]; static int vp_hn;
void vp_hadd_int(int key, void *el) { vp_hwrite(); vp_assert(vp_hn < VP_HN, "table bound"); vp_assume(vp_hn < VP_HN); for (int i = 0; i < VP_HN; i++) if (i == vp_hn) { vp_ht[i].el = el; vp_ht[i].key = key; } vp_hn++; }
void vp_hadd_str(const char *s, size_t n, void *el) { vp_hwrite(); vp_assert(vp_hn < VP_HN, "table bound"); vp_assume(vp_hn < VP_HN); for (int i = 0; i < VP_HN; i++) if (i == vp_hn) { vp_ht[i].el = el; vp_ht[i].s = s; vp_ht[i].n = n; } vp_hn++; }
void *vp_hfind_int(int key) { vp_hread(); void *r = NULL; for (int i = 0; i < VP_HN; i++) if (i < vp_hn && vp_ht[i].el && vp_ht[i].key == key) r = vp_ht[i].el; return r; }
void *vp_hfind_str(const char *s, size_t n) { vp_hread(); void *r = NULL; for (int i = 0; i < VP_HN; i++) if (i < vp_hn && vp_ht[i].el && vp_ht[i].n == n && memcmp(vp_ht[i].s, s, n) == 0) r = vp_ht[i].el; return r; }
static void *vp_hget(int from) { void *r = NULL; for (int i = VP_HN - 1; i >= 0; i--) if (i >= from && i < vp_hn && vp_ht[i].el) r = vp_ht[i].el; return r; }
void *vp_hdel(void *el) { vp_hwrite(); bool f = false; for (int i = 0; i < VP_HN; i++) if (i < vp_hn && vp_ht[i].el == el) { vp_ht[i].el = NULL; f = true; } vp_assert(f, "only a member is removed from the table"); return vp_hget(0); }
void *vp_hfirst(void) { vp_hread(); return vp_hget(0); }
void *vp_hnext(void *el) { vp_hread(); int p = -1; for (int i = 0; i < VP_HN; i++) if (i < vp_hn && vp_ht[i].el == el) p = i; vp_assert(p >= 0, "the table is walked from a member"); return vp_hget(p + 1); }
unsigned vp_hcount(void) { vp_hread(); unsigned n = 0; for (int i = 0; i < VP_HN; i++) if (i < vp_hn && vp_ht[i].el) n++; return n; }
