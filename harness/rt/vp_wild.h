/* String functions for requests with "wild" bytes: arbitrary characters other than NUL, control characters, space and , ; : =
 * Wild bytes are marked (per text object, by offset), so that scanning a string takes the same path for every value of them;
 * comparisons with other characters stay symbolic. The copying functions keep the marks. Marks of bytes that the code overwrites
 * itself are not cleared: texts are laid out so that the code only writes to unmarked bytes (constants at the ends of values). */
#ifndef VP_MK
#define VP_MK 400
#endif
#ifndef VP_MO
#define VP_MO 2      /* marked objects: further copies count as unmarked, scanning them is merely slower */
#endif
static const char *vp_mb0, *vp_mb1, *vp_mb2, *vp_mb3, *vp_mb4, *vp_mb5; static int vp_mn;     /* separate arrays: a constant-index access stays cheap */
static char vp_mk0[VP_MK], vp_mk1[VP_MK], vp_mk2[VP_MK], vp_mk3[VP_MK], vp_mk4[VP_MK], vp_mk5[VP_MK];
#define VP_ROWS(X) X(0) X(1) X(2) X(3) X(4) X(5)
#define VP_GET(k) if (k < vp_mn && __CPROVER_same_object(p, vp_mb##k)) return vp_mk##k[__CPROVER_POINTER_OFFSET(p)];
#define VP_PUT(k) if (k < vp_mn && __CPROVER_same_object(p, vp_mb##k)) { vp_mk##k[__CPROVER_POINTER_OFFSET(p)] = v; return; }
#define VP_NEW(k) if (k == vp_mn && k < VP_MO) { vp_mb##k = p; vp_mk##k[__CPROVER_POINTER_OFFSET(p)] = v; vp_mn = k + 1; return; }
static char vp_w(const char *p) { VP_ROWS(VP_GET) return 0; }
void vp_wset(const char *p, char v) { VP_ROWS(VP_PUT) if (v) { VP_ROWS(VP_NEW) } }
void vp_wcpy(char *d, const char *s) { vp_wset(d, vp_w(s)); }
#define VP_W(p) (vp_w(p) != 0)
#define VP_EXCL(c) ((unsigned char)(c) <= ' ' || (c) == ',' || (c) == ';' || (c) == ':' || (c) == '=' || (c) == 127)
static void vp_cpw(char *d, const char *s) { *d = *s; vp_wcpy(d, s); }
void vp_wild_byte(char *p, unsigned char v) { __CPROVER_assume(!VP_EXCL(v)); *p = (char)v; vp_wset(p, 1); }
void vp_wild_copy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) vp_cpw(d + i, s + i); }
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
void *memcpy(void *d, const void *s, size_t n) {
    if (n > 0) { CHK(__CPROVER_r_ok(s, n), "memcpy source readable"); CHK(__CPROVER_w_ok(d, n), "memcpy destination writable"); }
    char *D = d; const char *S = s; for (size_t i = 0; i < n; i++) vp_cpw(D + i, S + i);
    return d;
}
void *vp_memcpy_t(void *d, const void *s, size_t n, size_t unit) {
    if (unit != sizeof(void *) || n % unit != 0) return memcpy(d, s, n);
    if (n > 0) { CHK(__CPROVER_r_ok(s, n), "memcpy source readable"); CHK(__CPROVER_w_ok(d, n), "memcpy destination writable"); }
    void **D = d; void *const *S = s; for (size_t i = 0; i < n / unit; i++) D[i] = S[i];
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    if (n > 0) { CHK(__CPROVER_r_ok(s, n), "memmove source readable"); CHK(__CPROVER_w_ok(d, n), "memmove destination writable"); }
    char *D = d; const char *S = s;
    if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) == __CPROVER_POINTER_OFFSET(s)) return d;
    if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) { for (size_t i = n; i > 0; i--) vp_cpw(D + i - 1, S + i - 1); }
    else for (size_t i = 0; i < n; i++) vp_cpw(D + i, S + i);
    return d;
}
void *memset(void *d, int c, size_t n) {
    if (n > 0) CHK(__CPROVER_w_ok(d, n), "memset destination writable");
    char *D = d; for (size_t i = 0; i < n; i++) { D[i] = (char)c; vp_wset(D + i, 0); } return d;
}
int memcmp(const void *a, const void *b, size_t n) {
    if (n > 0) { CHK(__CPROVER_r_ok(a, n), "memcmp readable"); CHK(__CPROVER_r_ok(b, n), "memcmp readable"); }
    const unsigned char *A = a, *B = b; int r = 0;
    for (size_t i = 0; i < n; i++) r = r != 0 ? r : (int)A[i] - (int)B[i];
    return r;
}
#pragma CPROVER check pop
static int vp_end(const char *p) { if (VP_W(p)) return 0; return *p == 0; }
static int vp_eq(const char *p, char c) { if (VP_W(p) && VP_EXCL(c)) return 0; return *p == c; }
static int vp_in(const char *p, const char *set) {
    if (VP_W(p)) { int r = 0; for (size_t i = 0; set[i] != 0; i++) if (!VP_EXCL(set[i])) r |= *p == set[i]; return r; }
    for (size_t i = 0; set[i] != 0; i++) if (set[i] == *p) return 1; return 0;
}
static char vp_lc(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
size_t strlen(const char *s) { size_t i = 0; while (!vp_end(s + i)) i++; return i; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && !vp_end(s + i)) i++; return i; }
static int vp_cmp(const char *a, const char *b, size_t n, int fold) {
    int r = 0;
    for (size_t i = 0; i < n; i++) {
        char x = a[i], y = b[i]; if (fold) { x = vp_lc(x); y = vp_lc(y); }
        r = r != 0 ? r : (int)(unsigned char)x - (int)(unsigned char)y;
        if (vp_end(a + i) || vp_end(b + i)) break;
        if (!VP_W(a + i) && !VP_W(b + i) && x != y) break;
    }
    return r;
}
int strcmp(const char *a, const char *b) { return vp_cmp(a, b, (size_t)-1, 0); }
int strncmp(const char *a, const char *b, size_t n) { return vp_cmp(a, b, n, 0); }
int strncasecmp(const char *a, const char *b, size_t n) { return vp_cmp(a, b, n, 1); }
int strcasecmp(const char *a, const char *b) { return vp_cmp(a, b, (size_t)-1, 1); }
char *strchr(const char *s, int c) { size_t i = 0; for (;; i++) { if (vp_eq(s + i, (char)c)) return (char *)s + i; if (vp_end(s + i)) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; size_t i = 0; for (;; i++) { if (vp_eq(s + i, (char)c)) r = (char *)s + i; if (vp_end(s + i)) return r; } }
void *memchr(const void *s, int c, size_t n) { const char *p = s; for (size_t i = 0; i < n; i++) if (vp_eq(p + i, (char)c)) return (void *)(p + i); return 0; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && !vp_end(s + i); i++) vp_cpw(d + i, s + i); for (; i < n; i++) { d[i] = 0; vp_wset(d + i, 0); } return d; }
char *strcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { vp_cpw(d + i, s + i); if (vp_end(s + i)) return d; } }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && !vp_end(s + i); i++) vp_cpw(d + l + i, s + i); d[l + i] = 0; vp_wset(d + l + i, 0); return d; }
char *strtok_r(char *s, const char *delim, char **save) {
    if (s == 0) s = *save;
    if (vp_end(s)) { *save = s; return 0; }
    while (!vp_end(s) && vp_in(s, delim)) s++;
    if (vp_end(s)) { *save = s; return 0; }
    char *tok = s;
    while (!vp_end(s) && !vp_in(s, delim)) s++;
    if (vp_end(s)) { *save = s; return tok; }
    *s = 0; *save = s + 1; return tok;
}
size_t strspn(const char *s, const char *set) { size_t i = 0; while (!vp_end(s + i) && vp_in(s + i, set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (!vp_end(s + i) && !vp_in(s + i, set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { size_t i = strcspn(s, set); return vp_end(s + i) ? 0 : (char *)s + i; }
static int vp_at(const char *h, const char *n) { int r = 1; for (size_t j = 0; n[j] != 0; j++) { if (!vp_eq(h + j, n[j])) { if (!VP_W(h + j) || VP_EXCL(n[j])) return 0; r = 0; } } return r; }
char *strstr(const char *h, const char *n) { for (size_t i = 0;; i++) { if (vp_at(h + i, n)) return (char *)h + i; if (vp_end(h + i)) return 0; } }
long strtol(const char *s, char **end, int base) {   /* base 10 */
    size_t i = 0; while (!vp_end(s + i) && !VP_W(s + i) && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
    int neg = 0; if (!VP_W(s + i) && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }   /* a wild first byte is no sign (assumed by the harness) */
    unsigned long v = 0; int stop = 0; size_t n = 0, st = i;
    for (;; i++) {
        if (vp_end(s + i)) break;
        if (!VP_W(s + i) && !(s[i] >= '0' && s[i] <= '9')) break;
        if (!(s[i] >= '0' && s[i] <= '9')) stop = 1;
        if (!stop) { n++; v = i - st < 18 ? v * 10 + (unsigned long)(s[i] - '0') : 9223372036854775807ul; }
    }
    if (end) *end = (char *)s + (n ? st + n : 0);
    return neg ? -(long)v : (long)v;
}
