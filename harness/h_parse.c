/* P01: frame parsing against an RFC 6455 reference decoder. MODE: ANY (every byte symbolic, length L, symbolic offset),
 * GEN (concrete shape: payload length PN, length form FORM in {7,16,64}, MASKED, PRE bytes before, POST bytes after / CUT bytes missing). */
#include "vp.h"
#include "frame.h"

#include "rfc.h"

static void check(char *raw, const uint8_t *orig, size_t L, size_t off) {
    size_t o = off;
    wss_frame_t *f = WSS_parse_frame(raw, L, &o);
    rfc_t r = rfc_parse(orig, L, off);
    for (size_t i = 0; i < L; i++) vp_assert((uint8_t)raw[i] == orig[i], "parsing leaves the input buffer unchanged");
    if (r.complete) {
        vp_assert(f != NULL, "a complete frame is parsed");
        vp_assert(o == off + r.hdr + r.len, "offset advances by exactly the frame's encoded size");
        vp_assert(f->fin == r.fin && f->rsv1 == r.r1 && f->rsv2 == r.r2 && f->rsv3 == r.r3, "FIN and RSV bits are those of the wire");
        vp_assert(f->opcode == r.op && f->mask == r.mask, "opcode and mask bit are those of the wire");
        vp_assert(f->payloadLength == r.len && f->extensionDataLength + f->applicationDataLength == r.len, "lengths are those of the wire");
        for (size_t i = 0; i < r.len; i++)
            vp_assert((uint8_t)f->payload[i] == (uint8_t)(orig[off + r.hdr + i] ^ (r.mask ? r.key[i & 3] : 0)), "payload is the unmasked wire payload");
        vp_reach("complete frame");
        if (r.len == 0) vp_reach("empty payload");
    } else {
        vp_assert(f == NULL || o > L, "an incomplete frame is never reported as complete");
        vp_assert(f == NULL || f->payload == NULL || o > L, "no payload for incomplete frame");
        vp_reach("incomplete frame");
    }
    WSS_free_frame(f);
    vp_assert(vp_live == 0, "no allocation is leaked");
}

#if MODE == 0   /* ANY */
void vp_main(void) {
    char *raw = vp_bytes(L_);
    uint8_t *orig = vp_raw(L_);
    for (size_t i = 0; i < L_; i++) orig[i] = (uint8_t)raw[i];
    size_t off = 0;
#ifdef OFF
    off = OFF;
#else
    off = vp_range(0, L_ - 1);
#endif
    check(raw, orig, L_, off);
}
#elif MODE == 1 /* GEN: fixed shape, symbolic flags/key/content */
#define HDR (2 + (FORM == 16 ? 2 : FORM == 64 ? 8 : 0) + (MASKED ? 4 : 0))
#define TOT (PRE + HDR + PN + POST - CUT)
void vp_main(void) {
    char *raw = vp_bytes(TOT);
    uint8_t b1 = (MASKED ? 0x80 : 0) | (FORM == 16 ? 126 : FORM == 64 ? 127 : PN);
    raw[PRE + 1] = (char)b1;
    if (FORM == 16) { raw[PRE + 2] = (char)(PN >> 8); raw[PRE + 3] = (char)(PN & 255); }
    if (FORM == 64) for (int i = 0; i < 8; i++) raw[PRE + 2 + i] = (char)((uint64_t)PN >> (56 - 8 * i));
    uint8_t *orig = vp_raw(TOT);
    for (size_t i = 0; i < TOT; i++) orig[i] = (uint8_t)raw[i];
    check(raw, orig, TOT, PRE);
}
#elif MODE == 2 /* header with any 64-bit length on a short buffer: length arithmetic */
void vp_main(void) {
    char *raw = vp_bytes(L_);
    raw[OFF + 1] = (char)((uint8_t)raw[OFF + 1] | 0x7f);    /* 64-bit form, mask bit free */
    uint8_t *orig = vp_raw(L_);
    for (size_t i = 0; i < L_; i++) orig[i] = (uint8_t)raw[i];
    uint64_t n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (uint8_t)raw[OFF + 2 + i];
    vp_assume(n > L_);
    check(raw, orig, L_, OFF);
    if (n > ((uint64_t)1 << 63)) vp_reach("length with the top bit set");
}
#endif
