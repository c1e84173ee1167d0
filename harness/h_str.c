/* P29: string helpers with the C library's file calls under symbolic control. */
#include "vp.h"
#include <stdio.h>
#include "str.h"
#ifndef FAIL
#define FAIL 0
#endif
static int opened, closed; static bool f_open, f_seek1, f_seek2, f_read, f_close; static int seeks; static long pos, len; static char *content;
FILE *vp_fopen(const char *p, const char *m) { (void)p; (void)m; if (f_open) return NULL; opened++; return (FILE *)&opened; }
int vp_fseek(FILE *f, long o, int w) { vp_assert(f == (FILE *)&opened && opened > closed, "only an open file is used"); seeks++; if (seeks == 1 ? f_seek1 : f_seek2) return -1; pos = w == SEEK_END ? len + o : w == SEEK_SET ? o : pos + o; return 0; }
long vp_ftell(FILE *f) { vp_assert(f == (FILE *)&opened && opened > closed, "only an open file is used"); return pos; }
void vp_rewind(FILE *f) { vp_assert(f == (FILE *)&opened && opened > closed, "only an open file is used"); pos = 0; }
size_t vp_fread(void *b, size_t s, size_t n, FILE *f) {
    vp_assert(f == (FILE *)&opened && opened > closed, "only an open file is used");
    size_t w = s * n; if (w > (size_t)(len - pos)) w = (size_t)(len - pos);
    if (f_read && w > 0) w--;
    for (size_t i = 0; i < w; i++) ((char *)b)[i] = content[pos + (long)i];
    pos += (long)w; return s ? w / s : 0;
}
int vp_fclose(FILE *f) { vp_assert(f == (FILE *)&opened && opened > closed, "only an open file is closed"); closed++; return f_close ? -1 : 0; }
void vp_main(void) {
    vp_fail_at = FAIL;
#if MODE == 0
    content = vp_bytes(N); len = N;
    f_open = vp_bool(); f_seek1 = vp_bool(); f_seek2 = vp_bool(); f_read = vp_bool(); f_close = vp_bool();
    char *out = (char *)&opened;
    size_t n = strload("x", &out);
    vp_assert(opened == closed, "the file is closed exactly once");
    bool bad = f_open || f_seek1 || f_seek2 || (f_read && N > 0) || f_close || FAIL == 1;
    if (bad) { vp_assert(n == 0 && out == NULL, "a failing call is reported and no text is returned"); vp_assert(vp_live == 0, "nothing is leaked"); vp_reach("failed"); }
    else {
        vp_assert(n == N && out != NULL, "the length is that of the file");
        for (size_t i = 0; i < N; i++) vp_assert(out[i] == content[i], "the text is that of the file");
        vp_assert(out[N] == 0 && vp_live == 1, "the text is terminated"); vp_reach("loaded");
    }
#elif MODE == 1
    unsigned char *b = (unsigned char *)vp_bytes(N);
    char *h = bin2hex(b, N);
    if (FAIL) { vp_assert(h == NULL && vp_live == 0, "running out of memory is reported"); vp_reach("failed"); return; }
    vp_assert(h != NULL, "the text is returned");
    for (size_t i = 0; i < N; i++) for (int k = 0; k < 2; k++) { unsigned v = k ? b[i] & 15u : b[i] >> 4; char c = h[2 * i + (size_t)k]; vp_assert(c == (char)(v < 10 ? '0' + v : 'A' + v - 10), "each byte becomes its two hexadecimal digits"); }
    vp_assert(h[2 * N] == 0 && vp_live == 1, "the text is terminated"); vp_reach("formatted");
#else
    /* needle and three words of up to N bytes, one of them absent */
    char *w[3]; bool absent = vp_bool(); unsigned count = vp_range(0, 3);
    char *needle = vp_str(N); for (int i = 0; i < 3; i++) { w[i] = vp_str(N); for (size_t j = 0; j < N; j++) { unsigned char z = vp_u8(); if (z == 0) w[i][j] = 0; } }
    for (size_t j = 0; j < N; j++) if (vp_bool()) needle[j] = 0;
    if (absent) w[1] = NULL;
    int r = strinarray(needle, (const char **)w, count); bool want = false;
    for (unsigned i = 0; i < 3; i++) if (i < count && w[i] != NULL) {
        bool same = true, done = false;
        for (size_t j = 0; j <= N; j++) if (!done) { if (needle[j] != w[i][j]) same = false; if (needle[j] == 0 || w[i][j] == 0) done = true; }
        if (same) want = true;
    }
    vp_assert((r == 0) == want && (r == 0 || r == -1), "a word is found exactly if the list contains it");
    vp_assert(strinarray(NULL, (const char **)w, count) == -1, "no word is never found");
    if (r == 0) vp_reach("found"); else vp_reach("not found");
#endif
}
