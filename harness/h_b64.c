/* P10: base64 coder; N concrete length, content and allocation failures symbolic. */
#include "vp.h"
char *b64_encode(const unsigned char *, size_t);
unsigned char *b64_decode_ex(const char *, size_t, size_t *);
static const char AB[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
#ifndef FAIL
#define FAIL 0
#endif
void vp_main(void) {
    vp_fail_at = FAIL;
#if MODE == 0
    unsigned char *s = (unsigned char *)vp_bytes(N);
    char *e = b64_encode(s, N);
    if (e == NULL) { vp_assert(FAIL > 0 && vp_alloc_calls >= FAIL, "encoding fails only when memory runs out"); vp_assert(vp_live == 0, "nothing is leaked"); vp_reach("out of memory"); return; }
    size_t L = (N + 2) / 3 * 4;
    for (size_t i = 0; i < L; i++) {
        size_t g = i / 4 * 3; unsigned a = s[g], b = g + 1 < N ? s[g + 1] : 0, c = g + 2 < N ? s[g + 2] : 0, v = a << 16 | b << 8 | c;
        unsigned six = v >> (18 - 6 * (i % 4)) & 63;
        bool pad = i % 4 >= 2 && g + (i % 4) - 1 >= N;
        vp_assert(pad ? e[i] == '=' : val((unsigned char)e[i]) == (int)six, "the encoding is that of RFC 4648");
    }
    vp_assert(e[L] == 0, "the encoding is terminated after its last character");
    vp_assert(vp_live == 1, "nothing is leaked");
#if DEC
    size_t dl = 99;
    unsigned char *d = b64_decode_ex(e, L, &dl);
    vp_assert(d != NULL && dl == N, "decoding an encoding gives the original length");
    for (size_t i = 0; i < N; i++) vp_assert(d[i] == s[i], "decoding an encoding gives the original bytes");
    vp_assert(d[N] == 0, "decoded data is terminated");
#endif
    vp_reach("encoded");
#else
    char *s = vp_bytes(N); size_t k = 0, dl = 99;
    while (k < N && val((unsigned char)s[k]) >= 0) k++;
    unsigned char *d = b64_decode_ex(s, N, &dl);
    if (d == NULL) { vp_assert((FAIL > 0 && vp_alloc_calls >= FAIL) || k % 4 == 1, "decoding fails only when memory runs out or a single character is left over"); vp_assert(vp_live == 0, "nothing is leaked"); vp_reach("refused"); return; }
    vp_assert(dl == k * 6 / 8, "decoding covers exactly the characters before the first foreign one");
    for (size_t i = 0; i < N * 6 / 8; i++) if (i < dl) {
        size_t g = i / 3 * 4; unsigned v = 0;
        for (size_t j = 0; j < 4; j++) v = v << 6 | (g + j < k ? (unsigned)val((unsigned char)s[g + j]) : 0);
        vp_assert(d[i] == (unsigned char)(v >> (16 - 8 * (i % 3))), "the decoding is that of RFC 4648");
    }
    vp_assert(d[dl] == 0, "decoded data is terminated");
    vp_assert(vp_live == 1, "nothing is leaked");
#if defined(VP_CAP) && !defined(VP_REPLAY)
    for (size_t i = 0; i < VP_CAP; i++) if (i > dl) vp_assert(d[i] == 0, "nothing is written beyond the block");
#endif
    vp_reach("decoded");
#endif
}
