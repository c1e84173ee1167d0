/* P09: the accept value and the icon's hash: what is fed to SHA-1 and what becomes of the digest. SHA-1 and OpenSSL's encoder are stand-ins that
 * check how they are used; the digest is arbitrary. PLAIN: the build without OpenSSL (own SHA-1 and base64). */
#include "vp.h"
#include <string.h>
#include <stdint.h>
#include "alloc.h"
#ifndef FAIL
#define FAIL 0
#endif
#ifndef PLAIN
#define PLAIN 0
#endif
extern size_t WSS_base64_encode_sha1(char *key, size_t n, char **acc);
extern size_t WSS_sha1(char *key, size_t n, char **hash);
static char key[LEN + 1]; static unsigned char dig[20]; static int hashed, fed;
static void input(const unsigned char *d, size_t n) { for (size_t i = 0; i < n; i++) { vp_assert(fed < LEN && d[i] == (unsigned char)key[fed], "exactly the text is hashed"); fed++; } }
#if !PLAIN
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/buffer.h>
unsigned char *SHA1(const unsigned char *d, size_t n, unsigned char *md) { input(d, n); hashed++; for (int i = 0; i < 20; i++) md[i] = dig[i]; return md; }
static char fb, mb; static int nb, pushed, freed, nonl, flushed, wrote; static BUF_MEM bm; static char enc[29];
static char m64, mmem;
const BIO_METHOD *BIO_f_base64(void) { return (const BIO_METHOD *)&m64; }
const BIO_METHOD *BIO_s_mem(void) { return (const BIO_METHOD *)&mmem; }
BIO *BIO_new(const BIO_METHOD *t) { nb++; return t == (const BIO_METHOD *)&m64 ? (BIO *)&fb : (BIO *)&mb; }
BIO *BIO_push(BIO *b, BIO *a) { vp_assert(b == (BIO *)&fb && a == (BIO *)&mb, "the encoder writes to memory"); pushed = 1; return b; }
void BIO_set_flags(BIO *b, int f) { vp_assert(b == (BIO *)&fb, "flags of the encoder"); if (f & BIO_FLAGS_BASE64_NO_NL) nonl = 1; }
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
int BIO_write(BIO *b, const void *d, int n) {
    vp_assert(b == (BIO *)&fb && pushed && n == 20 && wrote == 0, "the whole digest is encoded"); const unsigned char *c = d; for (int i = 0; i < 20; i++) vp_assert(c[i] == dig[i], "the whole digest is encoded");
    wrote = 1; return n;
}
long BIO_ctrl(BIO *b, int cmd, long l, void *p) {
    (void)l;
    if (cmd == BIO_CTRL_FLUSH) { vp_assert(b == (BIO *)&fb && wrote, "flushed after writing"); flushed = 1; }
    else if (cmd == BIO_C_GET_BUF_MEM_PTR) { vp_assert(flushed && nonl, "complete, without line breaks"); bm.length = 28; bm.data = enc; *(BUF_MEM **)p = &bm; }
    return 1;
}
void BIO_free_all(BIO *b) { vp_assert(b == (BIO *)&fb && !freed && pushed, "the chain is freed once"); freed = 1; for (int i = 0; i < 28; i++) enc[i] = 0; bm.data = NULL; }
int BIO_free(BIO *b) { vp_assert(!pushed, "parts of a chain are freed with it"); nb--; (void)b; return 1; }
#else
#include "sha1.h"
#if !VP_NATIVE
uint32_t htonl(uint32_t v) { return (v >> 24) | ((v >> 8) & 0xff00) | ((v << 8) & 0xff0000) | (v << 24); }
#endif
static int reset;
void SHA1Reset(SHA1Context *c) { memset(c, 0, sizeof *c); reset++; vp_assert(fed == 0, "one digest"); }
void SHA1Input(SHA1Context *c, const unsigned char *d, unsigned n) { (void)c; vp_assert(reset == 1, "started first"); input(d, n); }
int SHA1Result(SHA1Context *c) { hashed++; for (int i = 0; i < 5; i++) c->Message_Digest[i] = ((unsigned)dig[4 * i] << 24) | (dig[4 * i + 1] << 16) | (dig[4 * i + 2] << 8) | dig[4 * i + 3]; return 1; }
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char enc[29];
#endif
void vp_main(void) {
    for (int i = 0; i < LEN; i++) key[i] = (char)vp_u8();
    for (int i = 0; i < 20; i++) dig[i] = vp_u8();
    char want[28]; for (int i = 0; i < 27; i++) { int bit = i * 6, b = bit / 8; unsigned v = ((unsigned)dig[b] << 8) | (b + 1 < 20 ? dig[b + 1] : 0); enc[i] = want[i] = A64[(v >> (10 - bit % 8)) & 63]; } enc[27] = want[27] = '=';
    vp_fail_at = FAIL;
    if (MODE == 1) {
        char *h = vp_raw0(20); WSS_sha1(key, LEN, &h);
        vp_assert(hashed == 1 && fed == LEN, "exactly the text is hashed");
        for (int i = 0; i < 20; i++) vp_assert((unsigned char)h[i] == dig[i], "the hash is the digest");
        vp_reach("hash"); vp_assert(vp_live == 0, "nothing is held"); return;
    }
    char *acc = NULL; size_t n = WSS_base64_encode_sha1(key, LEN, &acc);
    if (vp_alloc_calls >= FAIL && FAIL > 0) vp_assert(n == 0, "without memory there is no value"); 
    vp_assert(hashed == 1 && fed == LEN, "exactly the text is hashed");
#if !PLAIN
    vp_assert(nb == 2 && freed == 1, "the encoder is released");
#endif
    if (n == 0) { vp_assert(FAIL > 0, "there is a value"); vp_reach("no memory"); }
    else { vp_reach("value"); vp_assert(n == 28, "the value has 28 characters"); for (int i = 0; i < 28; i++) vp_assert(acc[i] == want[i], "the value is the base64 form of the digest"); WSS_free((void **)&acc); }
    vp_assert(vp_live == 0, "nothing is held");
}
