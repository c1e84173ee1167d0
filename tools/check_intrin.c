/* Compares every model of harness/shadow/x86intrin.h with the CPU instruction: pseudo-random vectors plus all byte pairs. */
#include <immintrin.h>
#include <x86intrin.h>
#define VP_MODEL_INTRIN
#define VP_REPLAY
#define VPI(x) m##x
#include "../harness/shadow/x86intrin.h"
#include <stdio.h>
#include <string.h>
static uint64_t s = 88172645463325252ull; static uint8_t rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint8_t)(s >> 24); }
static int bad;
#define T2(W,P,op) { P##W r = P##_##op(a##P, b##P); m##P##W q = m##P##_##op(c##P, d##P); if (memcmp(&r, &q, sizeof r)) { bad = 1; printf("differs: %s\n", #P "_" #op); } }
typedef __m128i _mmW; typedef __m256i _mm256W; typedef m__m128i m_mmW; typedef m__m256i m_mm256W;
int main(void) {
    for (int n = 0; n < 70000; n++) {
        uint8_t x[32], y[32];
        for (int i = 0; i < 32; i++) { x[i] = rnd(); y[i] = rnd(); }
        if (n < 65536) { x[n % 32] = n & 255; y[n % 32] = n >> 8; }
        if (n % 3 == 0) memset(y, 0, n % 33 > 32 ? 32 : n % 33);
        if (n % 7 == 0) memset(x, 0xff, n % 33);
        _mmW a_mm = _mm_loadu_si128((void *)x), b_mm = _mm_loadu_si128((void *)y); m_mmW c_mm = m_mm_loadu_si128((void *)x), d_mm = m_mm_loadu_si128((void *)y);
        _mm256W a_mm256 = _mm256_loadu_si256((void *)x), b_mm256 = _mm256_loadu_si256((void *)y); m_mm256W c_mm256 = m_mm256_loadu_si256((void *)x), d_mm256 = m_mm256_loadu_si256((void *)y);
#define ALL(op) T2(W,_mm,op) T2(W,_mm256,op)
        ALL(add_epi8) ALL(sub_epi8) ALL(adds_epu8) ALL(subs_epu8) ALL(max_epu8) ALL(min_epu8) ALL(cmpeq_epi8) ALL(cmpgt_epi8) ALL(shuffle_epi8)
        T2(W,_mm,xor_si128) T2(W,_mm256,xor_si256) T2(W,_mm,or_si128) T2(W,_mm256,or_si256) T2(W,_mm,and_si128) T2(W,_mm256,and_si256) T2(W,_mm,andnot_si128) T2(W,_mm256,andnot_si256)
#define AL(k) { _mmW r = _mm_alignr_epi8(a_mm, b_mm, k); m_mmW q = m_mm_alignr_epi8(c_mm, d_mm, k); if (memcmp(&r,&q,16)) bad = 1, puts("alignr"); } { _mm256W r = _mm256_alignr_epi8(a_mm256, b_mm256, k); m_mm256W q = m_mm256_alignr_epi8(c_mm256, d_mm256, k); if (memcmp(&r,&q,32)) bad = 1, puts("alignr256"); }
        AL(0) AL(1) AL(13) AL(14) AL(15) AL(16) AL(20) AL(31)
#define PM(k) { _mm256W r = _mm256_permute2x128_si256(a_mm256, b_mm256, k); m_mm256W q = m_mm256_permute2x128_si256(c_mm256, d_mm256, k); if (memcmp(&r,&q,32)) bad = 1, puts("permute"); }
        PM(0x21) PM(0x20) PM(0x31) PM(0x03) PM(0x12) PM(0x83) PM(0x08)
#define SH(op,k) { _mmW r = _mm_##op(a_mm, k); m_mmW q = m_mm_##op(c_mm, k); if (memcmp(&r,&q,16)) bad = 1, puts(#op); } { _mm256W r = _mm256_##op(a_mm256, k); m_mm256W q = m_mm256_##op(c_mm256, k); if (memcmp(&r,&q,32)) bad = 1, puts(#op); }
        SH(srli_epi16,4) SH(srli_epi16,1) SH(srli_epi16,15) SH(srli_epi16,16) SH(slli_epi16,4) SH(slli_epi16,9)
        if (!!_mm_testz_si128(a_mm, b_mm) != m_mm_testz_si128(c_mm, d_mm)) bad = 1, puts("testz");
        if (!!_mm256_testz_si256(a_mm256, b_mm256) != m_mm256_testz_si256(c_mm256, d_mm256)) bad = 1, puts("testz256");
        if (_mm_movemask_epi8(a_mm) != m_mm_movemask_epi8(c_mm) || _mm256_movemask_epi8(a_mm256) != m_mm256_movemask_epi8(c_mm256)) bad = 1, puts("movemask");
        { _mm256W r = _mm256_set1_epi8((char)x[0]); m_mm256W q = m_mm256_set1_epi8((char)x[0]); if (memcmp(&r,&q,32)) bad = 1; }
        { int v; memcpy(&v, x, 4); _mm256W r = _mm256_set1_epi32(v); m_mm256W q = m_mm256_set1_epi32(v); if (memcmp(&r,&q,32)) bad = 1; }
        { _mmW r = _mm_setr_epi8(x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15]); m_mmW q = m_mm_setr_epi8(x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15]); if (memcmp(&r,&q,16)) bad = 1; }
        if (bad) return 1;
    }
    puts("intrinsic models agree with the CPU");
    return 0;
}
