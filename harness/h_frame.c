/* P02 serialisation, P03 fragmentation, P04 unmasking, P06 control frames. */
#include "vp.h"
#include "frame.h"
#include "rfc.h"

#if MODE == 0   /* stringify one frame: payload length PN, extension bytes EX; symbolic flags, opcode, content */
static void mk(wss_frame_t *f, size_t pn, size_t ex) {
    static const wss_frame_t zero; *f = zero;
    f->fin = vp_bool(); f->rsv1 = vp_bool(); f->rsv2 = vp_bool(); f->rsv3 = vp_bool();
    f->opcode = (uint8_t)vp_range(0, 15);
    f->payloadLength = pn; f->extensionDataLength = ex; f->applicationDataLength = pn - ex;
    f->payload = pn ? vp_bytes(pn) : NULL;
}
void vp_main(void) {
    wss_frame_t f; char *m = NULL;
    mk(&f, PN, EX);
    size_t n = WSS_stringify_frame(&f, &m);
    vp_assert(m != NULL, "serialisation succeeds");
    rfc_t r = rfc_parse((uint8_t *)m, n, 0);
    vp_assert(n == rfc_size(PN), "serialised size is that of the minimal RFC 6455 encoding");
    vp_assert(r.complete && r.hdr + r.len == n && r.len == PN && !r.mask, "serialised bytes are one complete unmasked frame");
    vp_assert(r.fin == f.fin && r.r1 == f.rsv1 && r.r2 == f.rsv2 && r.r3 == f.rsv3 && r.op == f.opcode, "serialised flags and opcode");
    for (size_t i = 0; i < PN; i++) vp_assert(m[r.hdr + i] == f.payload[i], "serialised payload");
    /* round trip through the real parser */
    size_t off = 0;
    wss_frame_t *g = WSS_parse_frame(m, n, &off);
    vp_assert(g != NULL && off == n, "the parser accepts the serialisation and consumes all of it");
    vp_assert(g->fin == f.fin && g->rsv1 == f.rsv1 && g->rsv2 == f.rsv2 && g->rsv3 == f.rsv3 && g->opcode == f.opcode && !g->mask && g->payloadLength == PN, "round trip preserves the header");
    for (size_t i = 0; i < PN; i++) vp_assert(g->payload[i] == f.payload[i], "round trip preserves the payload");
    WSS_free_frame(g); vp_release(m);
    vp_assert(vp_live == 0, "no leak");
    vp_reach("round trip done");
}
#elif MODE == 1 /* stringify an array of frames = concatenation; lengths N0..N2 concrete, K frames, optional NULL frame at index BAD */
void vp_main(void) {
    static const size_t len[] = LENS;
    wss_frame_t fs[K]; wss_frame_t *fp[K]; char *m = (char *)1;
    for (size_t k = 0; k < K; k++) {
        static const wss_frame_t zero; fs[k] = zero;
        fs[k].fin = vp_bool(); fs[k].rsv1 = vp_bool(); fs[k].opcode = (uint8_t)vp_range(0, 15);
        fs[k].payloadLength = fs[k].applicationDataLength = len[k]; fs[k].payload = vp_bytes(len[k]);
        fp[k] = &fs[k];
    }
#ifdef BAD
    fp[BAD] = NULL;
#endif
    size_t n = WSS_stringify_frames(fp, K, &m);
#ifdef BAD
    vp_assert(n == 0 && m == NULL && vp_live == 0, "an invalid frame yields nothing and leaks nothing");
    vp_reach("invalid frame rejected");
#else
    size_t off = 0;
    for (size_t k = 0; k < K; k++) {
        rfc_t r = rfc_parse((uint8_t *)m, n, off);
        vp_assert(r.complete && r.len == len[k] && !r.mask && r.fin == fs[k].fin && r.r1 == fs[k].rsv1 && r.op == fs[k].opcode, "frames appear in order, complete");
        for (size_t i = 0; i < len[k]; i++) vp_assert(m[off + r.hdr + i] == fs[k].payload[i], "payload of each frame");
        off += r.hdr + r.len;
    }
    vp_assert(off == n, "nothing after the last frame");
    vp_release(m);
    vp_assert(vp_live == 0, "no leak");
    vp_reach("concatenation done");
#endif
}
#elif MODE == 2 /* message of ML bytes into frames of at most FS bytes */
void vp_main(void) {
    static wss_config_t cfg;
    cfg.size_frame = FS;
    char *msg = vp_raw(ML);
    for (size_t i = 0; i < ML; i++) msg[i] = ML <= 64 || i < 2 || i + 6 >= ML ? (char)vp_u8() : (char)(i * 7 + i / 256);
    uint8_t op = (uint8_t)vp_range(0, 10); vp_assume(op != CLOSE_FRAME);
    wss_frame_t **fs = NULL;
    size_t n = WSS_create_frames(&cfg, op, ML ? msg : (vp_bool() ? msg : NULL), ML, &fs);
    size_t want = ML == 0 ? 1 : (ML + FS - 1) / FS, at = 0;
    vp_assert(n == want && fs != NULL, "number of fragments is ceil(length/limit), at least one");
    for (size_t i = 0; i < want; i++) {
        wss_frame_t *f = fs[i];
        size_t l = ML - at < FS ? ML - at : FS;
        vp_assert(f->fin == (i == want - 1), "FIN is set on exactly the last fragment");
        vp_assert(f->opcode == (i == 0 ? op : CONTINUATION_FRAME), "only the first fragment carries the opcode");
        vp_assert(!f->rsv1 && !f->rsv2 && !f->rsv3 && !f->mask, "no RSV bit, not masked");
        vp_assert(f->payloadLength == l && f->applicationDataLength == l && f->extensionDataLength == 0, "fragment lengths");
        for (size_t b = 0; b < l; b++) vp_assert(f->payload[b] == msg[at + b], "fragments concatenate to the message");
        at += l;
        WSS_free_frame(f);
    }
    vp_assert(at == ML, "every byte of the message is sent exactly once");
    vp_release(fs);
    vp_assert(vp_live == 0, "no leak");
    vp_reach("fragments checked");
}
#elif MODE == 3 /* close message of exactly ML bytes handed by a subprotocol */
void vp_main(void) {
    static wss_config_t cfg;
    cfg.size_frame = 4;
    char *msg = vp_raw(ML);
    for (size_t i = 0; i < ML; i++) msg[i] = i < 2 || i >= SYM ? (char)vp_u8() : 'a';
    wss_frame_t **fs = NULL;
    size_t n = WSS_create_frames(&cfg, CLOSE_FRAME, msg, ML, &fs);
    vp_assert(n == 1 && fs != NULL, "a close message becomes one frame");
    wss_frame_t *f = fs[0];
    vp_assert(f->fin && f->opcode == CLOSE_FRAME && !f->mask && !f->rsv1 && !f->rsv2 && !f->rsv3, "close frame header");
    vp_assert(f->payloadLength >= 2 && f->payloadLength <= 125, "control frame payload limit");
    vp_assert(f->payloadLength <= (ML < 2 ? 2 : ML), "nothing beyond the given message is sent");
    unsigned code = (unsigned)(uint8_t)f->payload[0] << 8 | (uint8_t)f->payload[1];
    if (ML >= 2) vp_assert(code == ((unsigned)(uint8_t)msg[0] << 8 | (uint8_t)msg[1]), "status code is the one given");
    else vp_assert(code == (ML == 1 ? 1002 : 1000), "default status code");
    for (size_t i = 2; i < f->payloadLength; i++) vp_assert(f->payload[i] == msg[i], "reason text is the one given");
    if (ML <= 125) { bool nul = false; for (size_t i = 2; i < ML; i++) nul |= msg[i] == 0; if (!nul) vp_assert(f->payloadLength == (ML < 2 ? 2 : ML), "whole reason is sent when it fits"); }
    WSS_free_frame(f); vp_release(fs);
    vp_assert(vp_live == 0, "no leak");
    vp_reach("close frame checked");
}
#elif MODE == 4 /* close frame with server-chosen code and default text */
void vp_main(void) {
    unsigned code = vp_range(1000, 1016);
    bool known = (code <= 1003) || (code >= 1005 && code <= 1015);
    wss_frame_t *f = WSS_closing_frame((wss_close_t)code, NULL);
    if (known) {
        vp_assert(f != NULL, "close frame created for every known reason");
        vp_assert(f->fin && f->opcode == CLOSE_FRAME && !f->mask && !f->rsv1 && !f->rsv2 && !f->rsv3, "close frame header");
        vp_assert(f->payloadLength > 2 && f->payloadLength <= 125 && f->applicationDataLength == f->payloadLength, "control frame limit");
        vp_assert(((unsigned)(uint8_t)f->payload[0] << 8 | (uint8_t)f->payload[1]) == code, "status code in network byte order");
        for (size_t i = 2; i < f->payloadLength; i++) vp_assert(f->payload[i] >= 32 && f->payload[i] < 127, "reason is printable text");
        vp_reach("known code");
    } else { vp_assert(f == NULL, "unknown code without text is refused"); vp_reach("unknown code"); }
    WSS_free_frame(f);
    vp_assert(vp_live == 0, "no leak");
}
#elif MODE == 5 /* pong = ping payload, unmasked, ping well-formed */
void vp_main(void) {
    char *raw = vp_bytes(6 + PN);
    raw[1] = (char)(0x80 | PN);
    size_t off = 0;
    wss_frame_t *p = WSS_parse_frame(raw, 6 + PN, &off);
    vp_assert(p != NULL && off == 6 + PN, "ping parsed");
    wss_frame_t *q = WSS_pong_frame(p);
    vp_assert(q != NULL, "pong created");
    char *m; size_t n = WSS_stringify_frame(q, &m);
    rfc_t r = rfc_parse((uint8_t *)m, n, 0);
    vp_assert(r.complete && r.hdr + r.len == n && r.fin && !r.r1 && !r.r2 && !r.r3 && r.op == 10 && !r.mask && r.len == PN, "pong is one unmasked, final control frame");
    for (size_t i = 0; i < PN; i++) vp_assert((uint8_t)m[r.hdr + i] == (uint8_t)(raw[6 + i] ^ raw[2 + (i & 3)]), "pong echoes the ping's application data");
    WSS_free_frame(q); vp_release(m);
    vp_assert(vp_live == 0, "no leak");
    vp_assert(WSS_pong_frame(NULL) == NULL, "no pong without ping");
    vp_reach("pong checked");
}
#elif MODE == 6
void vp_main(void) {
    wss_frame_t *p = WSS_ping_frame();
    vp_assert(p != NULL, "ping created");
    vp_assert(p->fin && p->opcode == PING_FRAME && !p->mask && !p->rsv1 && !p->rsv2 && !p->rsv3, "ping header");
    vp_assert(p->payloadLength <= 125 && p->payloadLength == p->extensionDataLength + p->applicationDataLength, "ping payload limit");
    for (size_t i = 0; i < p->payloadLength; i++) { volatile char c = p->payload[i]; (void)c; }
    char *m; size_t n = WSS_stringify_frame(p, &m);
    rfc_t r = rfc_parse((uint8_t *)m, n, 0);
    vp_assert(r.complete && r.hdr + r.len == n && r.fin && r.op == 9 && !r.mask, "ping on the wire");
    WSS_free_frame(p); vp_release(m);
    vp_assert(vp_live == 0, "no leak");
    vp_reach("ping checked");
}
#elif MODE == 11 /* allocation failure while a control frame is created */
void vp_main(void) {
    vp_fail_at = FAIL;
    wss_frame_t *p = WHAT ? WSS_closing_frame(CLOSE_BIG, WHAT == 2 ? "xyz" : NULL) : WSS_ping_frame();
    vp_assert((p == NULL) == (vp_alloc_calls >= FAIL), "creation fails exactly when memory ran out");
    if (p) WSS_free_frame(p);
    vp_assert(vp_live == 0, "no leak when memory runs out");
    vp_reach("control frame fault checked");
}
#elif MODE == 7 /* allocation failure at any point of serialisation / frame creation: clean failure, no leak, no invalid access */
void vp_main(void) {
    static wss_config_t cfg; cfg.size_frame = 2;
    char *msg = OP == 8 ? vp_lit("\x03\xe8" "abc") : vp_bytes(MN); wss_frame_t **fs = NULL; char *m = NULL;
    vp_fail_at = FAIL;
    int op = OP;
    size_t n = WSS_create_frames(&cfg, (wss_opcode_t)op, msg, MN, &fs);
    if (n == 0) { vp_assert(fs == NULL && vp_live == 0, "failed creation leaks nothing"); vp_reach("creation failed"); return; }
    size_t k = WSS_stringify_frames(fs, n, &m);
    if (k == 0) { vp_assert(m == NULL, "no message on failure"); vp_reach("serialisation failed"); }
    else { vp_reach("everything allocated"); vp_release(m); }
    for (size_t i = 0; i < n; i++) WSS_free_frame(fs[i]);
    vp_release(fs);
    vp_assert(vp_live == 0, "no leak");
}
#elif MODE == 8 /* parser: allocation failure */
void vp_main(void) {
    char *raw = vp_bytes(12); size_t off = 0;
    vp_fail_at = FAIL;
    wss_frame_t *f = WSS_parse_frame(raw, 12, &off);
    if (f == NULL) { vp_assert(vp_live == 0, "failed parse leaks nothing"); vp_reach("parse failed"); }
    else WSS_free_frame(f);
    vp_assert(vp_live == 0, "no leak");
}
#elif MODE == 9 /* unmasking: n bytes, any key, any content (the header is concrete) */
void vp_main(void) {
    const size_t H = PN < 126 ? 6 : 8;
    char *raw = vp_bytes(H + PN);
    raw[0] = (char)0x82; 
    if (PN < 126) raw[1] = (char)(0x80 | PN); else { raw[1] = (char)(0x80 | 126); raw[2] = (char)(PN >> 8); raw[3] = (char)(PN & 255); }
    size_t off = 0;
    wss_frame_t *f = WSS_parse_frame(raw, H + PN, &off);
    vp_assert(f != NULL && off == H + PN && f->payloadLength == PN, "masked frame parsed");
    for (size_t i = 0; i < PN; i++) vp_assert((uint8_t)f->payload[i] == (uint8_t)(raw[H + i] ^ raw[H - 4 + (i & 3)]), "byte i is XORed with key byte i mod 4");
    WSS_free_frame(f);
    vp_assert(vp_live == 0, "no leak");
    vp_reach("unmasked");
}
#elif MODE == 10 /* payloads around 65536 bytes: the header (bulk blocks and copies are cut off, VP_BIG) */
void vp_main(void) {
    static wss_frame_t f; char *m = NULL;
    f.fin = 1; f.opcode = (uint8_t)vp_range(0, 15); f.payloadLength = f.applicationDataLength = PN;
    f.payload = vp_raw0(VP_NATIVE ? PN : 64);
    f.payload[0] = (char)vp_u8();
    size_t n = WSS_stringify_frame(&f, &m);
    vp_assert(m != NULL && n == rfc_size(PN), "serialised size is that of the minimal RFC 6455 encoding");
    rfc_t r = rfc_parse((uint8_t *)m, n, 0);
    vp_assert(r.complete && r.hdr + r.len == n && r.len == PN && !r.mask && r.fin && r.op == f.opcode, "serialised bytes are one complete unmasked frame");
    vp_assert(m[r.hdr] == f.payload[0], "first payload byte");
    size_t off = 0;
    wss_frame_t *g = WSS_parse_frame(m, n, &off);
    vp_assert(g != NULL && off == n && g->payloadLength == PN && g->opcode == f.opcode, "the parser accepts the serialisation and consumes all of it");
    vp_assert(g->payload[0] == f.payload[0], "round trip of the first payload byte");
    WSS_free_frame(g); vp_release(m);
    vp_assert(vp_live == 0, "no leak");
    vp_reach("big round trip done");
}
#endif
