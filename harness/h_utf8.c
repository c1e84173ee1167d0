/* P05: the UTF-8 validator against the definition (Unicode table 3-7), every byte string of exactly N bytes. */
#include "vp.h"
bool utf8_check(const char *src, size_t len);

static bool cont(uint8_t c) { return c >= 0x80 && c <= 0xBF; }
/* one step of the definition: number of bytes of the well-formed sequence at b[i], 0 if ill-formed */
static int seq(const uint8_t *b, size_t i, size_t n) {
    uint8_t c = b[i], d = i + 1 < n ? b[i + 1] : 0, e = i + 2 < n ? b[i + 2] : 0, f = i + 3 < n ? b[i + 3] : 0;
    if (c <= 0x7F) return 1;
    if (c >= 0xC2 && c <= 0xDF) return cont(d) ? 2 : 0;
    if (c == 0xE0) return d >= 0xA0 && d <= 0xBF && cont(e) ? 3 : 0;
    if (c == 0xED) return d >= 0x80 && d <= 0x9F && cont(e) ? 3 : 0;
    if (c >= 0xE1 && c <= 0xEF) return cont(d) && cont(e) ? 3 : 0;
    if (c == 0xF0) return d >= 0x90 && d <= 0xBF && cont(e) && cont(f) ? 4 : 0;
    if (c >= 0xF1 && c <= 0xF3) return cont(d) && cont(e) && cont(f) ? 4 : 0;
    if (c == 0xF4) return d >= 0x80 && d <= 0x8F && cont(e) && cont(f) ? 4 : 0;
    return 0;
}
void vp_main(void) {
    /* PRE concrete ASCII bytes, then N symbolic bytes, then POST concrete ASCII bytes */
    char *s = vp_raw(PRE + N + POST);
    for (size_t i = 0; i < PRE; i++) s[i] = 'a';
    for (size_t i = 0; i < N; i++) s[PRE + i] = (char)vp_u8();
    for (size_t i = 0; i < POST; i++) s[PRE + N + i] = 'b';
    const size_t L = PRE + N + POST;
    bool ok = true; int skip = 0;
    for (size_t i = PRE; i < L; i++) {
        if (skip > 0) { skip--; continue; }
        int k = seq((uint8_t *)s, i, L);
        if (k == 0) ok = false; else skip = k - 1;
    }
    bool got = utf8_check(s, L);
    vp_assert(got == ok, "the validator accepts exactly the well-formed UTF-8 strings");
    if (ok) vp_reach("valid string"); else vp_reach("invalid string");
}
