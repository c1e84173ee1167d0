/* Models of the C library used when encoding (CBMC only; the native replay uses the real library). */
#include <stddef.h>
#include <stdint.h>
int __CPROVER_isspace_(int c) { return c == ' ' || (c >= 9 && c <= 13); }
#define CHK(c, m) __CPROVER_assert(c, m)
#ifdef VP_WILD
#include "vp_wild.h"
#else
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
void *memcpy(void *d, const void *s, size_t n) {
#ifdef VP_BIG   /* blocks beyond this size are cut off: only their first bytes exist */
    if (n > VP_BIG) n = 4;
#endif
    if (n > 0) { CHK(__CPROVER_r_ok(s, n), "memcpy source readable"); CHK(__CPROVER_w_ok(d, n), "memcpy destination writable"); }
    char *D = d; const char *S = s;
    for (size_t i = 0; i < n; i++) D[i] = S[i];
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    if (n > 0) { CHK(__CPROVER_r_ok(s, n), "memmove source readable"); CHK(__CPROVER_w_ok(d, n), "memmove destination writable"); }
    char *D = d; const char *S = s;
    if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) { for (size_t i = n; i > 0; i--) D[i-1] = S[i-1]; }
    else for (size_t i = 0; i < n; i++) D[i] = S[i];
    return d;
}
void *memset(void *d, int c, size_t n) {
    if (n > 0) CHK(__CPROVER_w_ok(d, n), "memset destination writable");
    char *D = d; for (size_t i = 0; i < n; i++) D[i] = (char)c; return d;
}
int memcmp(const void *a, const void *b, size_t n) {
    if (n > 0) { CHK(__CPROVER_r_ok(a, n), "memcmp readable"); CHK(__CPROVER_r_ok(b, n), "memcmp readable"); }
    const unsigned char *A = a, *B = b;
    for (size_t i = 0; i < n; i++) if (A[i] != B[i]) return A[i] < B[i] ? -1 : 1;
    return 0;
}
#pragma CPROVER check pop
/* string functions keep the pointer checks: reading past the end of the object is reported */
size_t strlen(const char *s) { size_t i = 0; while (s[i] != 0) i++; return i; }
static char vp_lc(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
int strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] != 0 && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (a[i] == 0) return 0; } return 0; }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { char x = vp_lc(a[i]), y = vp_lc(b[i]); if (x != y) return (int)(unsigned char)x - (int)(unsigned char)y; if (x == 0) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { size_t i = 0; while (a[i] != 0 && vp_lc(a[i]) == vp_lc(b[i])) i++; return (int)(unsigned char)vp_lc(a[i]) - (int)(unsigned char)vp_lc(b[i]); }
char *strchr(const char *s, int c) { size_t i = 0; for (;; i++) { if (s[i] == (char)c) return (char *)s + i; if (s[i] == 0) return 0; } }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i] != 0; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcpy(char *d, const char *s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++] != 0); return d; }
static int vp_in(char c, const char *set) { for (size_t i = 0; set[i] != 0; i++) if (set[i] == c) return 1; return 0; }
char *strtok_r(char *s, const char *delim, char **save) {
    if (s == 0) s = *save;
    if (*s == 0) { *save = s; return 0; }
    while (*s != 0 && vp_in(*s, delim)) s++;
    if (*s == 0) { *save = s; return 0; }
    char *tok = s;
    while (*s != 0 && !vp_in(*s, delim)) s++;
    if (*s == 0) { *save = s; return tok; }
    *s = 0; *save = s + 1; return tok;
}
long strtol(const char *s, char **end, int base) {   /* base 10 */
    size_t i = 0; while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
    int neg = 0; if (s[i] == '-' || s[i] == '+') { neg = s[i] == '-'; i++; }
    unsigned long v = 0; int any = 0, sat = 0; size_t st = i;
    while (s[i] >= '0' && s[i] <= '9') { any = 1; if (i - st < 18) v = v * 10 + (unsigned long)(s[i] - '0'); else sat = 1; i++; }
    if (end) *end = (char *)s + (any ? i : 0);
    if (sat) return neg ? (-9223372036854775807L - 1) : 9223372036854775807L;
    return neg ? -(long)v : (long)v;
}
#endif
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }

int nondet_vp_rand(void);
int rand(void) { int r = nondet_vp_rand(); __CPROVER_assume(r >= 0); return r; }
void srand(unsigned s) { (void)s; }
int getpid(void) { return 4711; }
long nondet_vp_time(void);
#ifndef time
long time(long *t) { long r = nondet_vp_time(); if (t) *t = r; return r; }
#endif
#ifndef VP_WILD
char *strrchr(const char *s, int c) { char *r = 0; size_t i = 0; for (;; i++) { if (s[i] == (char)c) r = (char *)s + i; if (s[i] == 0) return r; } }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i] != 0) i++; return i; }
void *memchr(const void *s, int c, size_t n) { const char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (char)c) return (void *)(p + i); return 0; }
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] != 0 && vp_in(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] != 0 && !vp_in(s[i], set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { size_t i = strcspn(s, set); return s[i] ? (char *)s + i : 0; }
char *strstr(const char *h, const char *n) { for (size_t i = 0;; i++) { size_t j = 0; while (n[j] != 0 && h[i + j] == n[j]) j++; if (n[j] == 0) return (char *)h + i; if (h[i] == 0) return 0; } }
char *strcat(char *d, const char *s) { size_t i = 0, j = 0; while (d[i] != 0) i++; do { d[i + j] = s[j]; } while (s[j++] != 0); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t i = 0, j = 0; while (d[i] != 0) i++; for (; j < n && s[j] != 0; j++) d[i + j] = s[j]; d[i + j] = 0; return d; }
#endif
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
#ifdef VP_WILD
#define VP_END(p) vp_end(p)
#define VP_MARK(out, cap, at, p) if ((at) + 1 < (cap)) vp_wcpy((out) + (at), p)
#else
#define VP_END(p) (*(p) == 0)
#define VP_MARK(out, cap, at, p)
#endif
/* formatted output for the conversions the code uses: %s %.*s %c %d %i %u %x %X %lu %zu %ld %02x %% ; numbers are printed digit by digit */
static size_t vp_put(char *out, size_t cap, size_t at, char c) { if (at + 1 < cap) out[at] = c; return at + 1; }
static size_t vp_num(char *out, size_t cap, size_t at, unsigned long v, unsigned base, int upper, int width, char pad) {
    char t[21]; int n = 0;
    if (base == 10) do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v && n < 20);
    else do { unsigned d = (unsigned)(v & 15); t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v >>= 4; } while (v && n < 20);
    for (int i = n; i < width; i++) at = vp_put(out, cap, at, pad);
    while (n > 0) at = vp_put(out, cap, at, t[--n]);
    return at;
}
#include <stdarg.h>
static int vp_vfmt(char *out, size_t cap, const char *f, va_list ap) {
    size_t at = 0;
    for (size_t i = 0; f[i] != 0; i++) {
        if (f[i] != '%') { at = vp_put(out, cap, at, f[i]); continue; }
        i++; int width = 0, prec = -1, l = 0; char pad = ' ';
        if (f[i] == '0') { pad = '0'; i++; }
        while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
        if (f[i] == '.') { i++; if (f[i] == '*') { prec = va_arg(ap, int); i++; } else { prec = 0; while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; } } }
        while (f[i] == 'l' || f[i] == 'z' || f[i] == 'j') { l = 1; i++; }
        if (f[i] == 's') { const char *s = va_arg(ap, const char *); for (size_t k = 0; (prec < 0 || k < (size_t)prec) && !VP_END(s + k); k++) { at = vp_put(out, cap, at, s[k]); VP_MARK(out, cap, at - 1, s + k); } }
        else if (f[i] == 'c') at = vp_put(out, cap, at, (char)va_arg(ap, int));
        else if (f[i] == 'd' || f[i] == 'i') { long v = l ? va_arg(ap, long) : (long)va_arg(ap, int); if (v < 0) { at = vp_put(out, cap, at, '-'); v = -v; } at = vp_num(out, cap, at, (unsigned long)v, 10, 0, width, pad); }
        else if (f[i] == 'u') { unsigned long v = l ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); at = vp_num(out, cap, at, v, 10, 0, width, pad); }
        else if (f[i] == 'x' || f[i] == 'X') { unsigned long v = l ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); at = vp_num(out, cap, at, v, 16, f[i] == 'X', width, pad); }
        else if (f[i] == '%') at = vp_put(out, cap, at, '%');
        else __CPROVER_assert(0, "vp: unsupported conversion in a format");
    }
    if (cap > 0) out[at < cap ? at : cap - 1] = 0;
    return (int)at;
}
int sprintf(char *out, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_vfmt(out, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int snprintf(char *out, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_vfmt(out, cap, f, ap); va_end(ap); return r; }
int vsnprintf(char *out, size_t cap, const char *f, va_list ap) { return vp_vfmt(out, cap, f, ap); }
int vsprintf(char *out, const char *f, va_list ap) { return vp_vfmt(out, (size_t)1 << 40, f, ap); }
char *vp_xpg_basename(char *p) { char *r = p; for (size_t i = 0; p[i] != 0; i++) if (p[i] == '/') r = p + i + 1; return r; }
/* only ever applied to positive whole numbers (ports): the whole part is exact, the fraction is 0 exactly for powers of ten */
double log10(double x) { __CPROVER_assert(x >= 1 && x <= 4294967295.0, "vp: log10 of a port"); unsigned long v = (unsigned long)x, p = 1; int d = 0; while (d < 9 && p * 10 <= v) { p *= 10; d++; } return p == v ? (double)d : d + 0.5; }
double floor(double x) { return (double)(long)x; }
