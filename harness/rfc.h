/* Reference decoder written from RFC 6455 section 5.2. */
#ifndef RFC_H
#define RFC_H
typedef struct { bool fin, r1, r2, r3, mask; uint8_t op; uint64_t len; uint8_t key[4]; uint64_t hdr; bool complete; } rfc_t;
static rfc_t rfc_parse(const uint8_t *b, size_t L, size_t off) {
    rfc_t r = {0};
    if (off >= L) return r;
    size_t n = L - off, need = 2;
    r.fin = b[off] >> 7; r.r1 = b[off] >> 6 & 1; r.r2 = b[off] >> 5 & 1; r.r3 = b[off] >> 4 & 1; r.op = b[off] & 15;
    if (n < 2) return r;
    r.mask = b[off + 1] >> 7; r.len = b[off + 1] & 127;
    if (r.len == 126) { need = 4; if (n < need) return r; r.len = (uint64_t)b[off + 2] << 8 | b[off + 3]; }
    else if (r.len == 127) { need = 10; if (n < need) return r; r.len = 0; for (int i = 0; i < 8; i++) r.len = r.len << 8 | b[off + 2 + i]; }
    if (r.mask) { need += 4; if (n < need) return r; for (int i = 0; i < 4; i++) r.key[i] = b[off + need - 4 + i]; }
    r.hdr = need;
    r.complete = r.len <= n - need;
    return r;
}
static inline size_t rfc_size(uint64_t len) { return (size_t)(2 + (len > 65535 ? 8 : len > 125 ? 2 : 0) + len); }
#endif
