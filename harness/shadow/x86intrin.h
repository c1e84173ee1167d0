/* C models of the vector intrinsics used by the code under test, used when encoding (CBMC has no vector intrinsics).
 * tools/check_intrin.c compares every model with the real instruction on the CPU. */
#if defined(VP_REPLAY) && !defined(VP_MODEL_INTRIN)
#include_next <x86intrin.h>
#else
#ifndef VP_X86
#define VP_X86
#include <stdint.h>
#ifdef VP_MODEL_INTRIN
#define VPI_R(p,n)
#define VPI_W(p,n)
#else
#define VPI_R(p,n) __CPROVER_assert(__CPROVER_r_ok(p, n), "vector load reads inside the object")
#define VPI_W(p,n) __CPROVER_assert(__CPROVER_w_ok(p, n), "vector store writes inside the object")
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-primitive"
#endif
#ifndef VPI
#define VPI(x) x
#endif

typedef struct { uint8_t b[16]; } VPI(__m128i);
static inline VPI(__m128i) VPI(_mm_loadu_si128)(const VPI(__m128i) *p) { VPI(__m128i) r; const uint8_t *q = (const uint8_t *)p; VPI_R(p, 16); for (int i = 0; i < 16; i++) r.b[i] = q[i]; return r; }
static inline VPI(__m128i) VPI(_mm_load_si128)(const VPI(__m128i) *p) { return VPI(_mm_loadu_si128)(p); }
static inline VPI(__m128i) VPI(_mm_lddqu_si128)(const VPI(__m128i) *p) { return VPI(_mm_loadu_si128)(p); }
static inline void VPI(_mm_storeu_si128)(VPI(__m128i) *p, VPI(__m128i) v) { uint8_t *q = (uint8_t *)p; VPI_W(p, 16); for (int i = 0; i < 16; i++) q[i] = v.b[i]; }
static inline void VPI(_mm_store_si128)(VPI(__m128i) *p, VPI(__m128i) v) { VPI(_mm_storeu_si128)(p, v); }
static inline VPI(__m128i) VPI(_mm_setzero_si128)(void) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = 0; return r; }
static inline VPI(__m128i) VPI(_mm_set1_epi8)(char c) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = (uint8_t)c; return r; }
static inline VPI(__m128i) VPI(_mm_set1_epi32)(int c) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = (uint8_t)((uint32_t)c >> (8 * (i & 3))); return r; }
static inline VPI(__m128i) VPI(_mm_xor_si128)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] ^ b.b[i]; return r; }
static inline VPI(__m128i) VPI(_mm_or_si128)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] | b.b[i]; return r; }
static inline VPI(__m128i) VPI(_mm_and_si128)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] & b.b[i]; return r; }
static inline VPI(__m128i) VPI(_mm_andnot_si128)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = (uint8_t)~a.b[i] & b.b[i]; return r; }
static inline VPI(__m128i) VPI(_mm_add_epi8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = (uint8_t)(a.b[i] + b.b[i]); return r; }
static inline VPI(__m128i) VPI(_mm_sub_epi8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = (uint8_t)(a.b[i] - b.b[i]); return r; }
static inline VPI(__m128i) VPI(_mm_adds_epu8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) { unsigned s = (unsigned)a.b[i] + b.b[i]; r.b[i] = s > 255 ? 255 : (uint8_t)s; } return r; }
static inline VPI(__m128i) VPI(_mm_subs_epu8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] > b.b[i] ? (uint8_t)(a.b[i] - b.b[i]) : 0; return r; }
static inline VPI(__m128i) VPI(_mm_max_epu8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] > b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline VPI(__m128i) VPI(_mm_min_epu8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] < b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline VPI(__m128i) VPI(_mm_cmpeq_epi8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] == b.b[i] ? 0xFF : 0; return r; }
static inline VPI(__m128i) VPI(_mm_cmpgt_epi8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = (int8_t)a.b[i] > (int8_t)b.b[i] ? 0xFF : 0; return r; }
static inline VPI(__m128i) VPI(_mm_srli_epi16)(VPI(__m128i) a, int n) { VPI(__m128i) r; for (int i = 0; i < 16; i += 2) { uint16_t w = (uint16_t)(a.b[i] | (a.b[i+1] << 8)); w = n > 15 ? 0 : (uint16_t)(w >> n); r.b[i] = (uint8_t)w; r.b[i+1] = (uint8_t)(w >> 8); } return r; }
static inline VPI(__m128i) VPI(_mm_slli_epi16)(VPI(__m128i) a, int n) { VPI(__m128i) r; for (int i = 0; i < 16; i += 2) { uint16_t w = (uint16_t)(a.b[i] | (a.b[i+1] << 8)); w = n > 15 ? 0 : (uint16_t)(w << n); r.b[i] = (uint8_t)w; r.b[i+1] = (uint8_t)(w >> 8); } return r; }
static inline VPI(__m128i) VPI(_mm_shuffle_epi8)(VPI(__m128i) a, VPI(__m128i) b) { VPI(__m128i) r; for (int i = 0; i < 16; i++) r.b[i] = (b.b[i] & 0x80) ? 0 : a.b[(i & 16) + (b.b[i] & 15)]; return r; }
static inline VPI(__m128i) VPI(_mm_alignr_epi8)(VPI(__m128i) a, VPI(__m128i) b, int n) { VPI(__m128i) r; for (int i = 0; i < 16; i++) { int k = (i & 15) + n, base = i & 16; r.b[i] = k < 16 ? b.b[base + k] : k < 32 ? a.b[base + k - 16] : 0; } return r; }
static inline int VPI(_mm_testz_si128)(VPI(__m128i) a, VPI(__m128i) b) { for (int i = 0; i < 16; i++) if (a.b[i] & b.b[i]) return 0; return 1; }
static inline int VPI(_mm_movemask_epi8)(VPI(__m128i) a) { uint32_t m = 0; for (int i = 0; i < 16; i++) m |= (uint32_t)(a.b[i] >> 7) << i; return (int)m; }
static inline VPI(__m128i) VPI(_mm_setr_epi8)(char a0,char a1,char a2,char a3,char a4,char a5,char a6,char a7,char a8,char a9,char a10,char a11,char a12,char a13,char a14,char a15) { VPI(__m128i) r = {{(uint8_t)a0,(uint8_t)a1,(uint8_t)a2,(uint8_t)a3,(uint8_t)a4,(uint8_t)a5,(uint8_t)a6,(uint8_t)a7,(uint8_t)a8,(uint8_t)a9,(uint8_t)a10,(uint8_t)a11,(uint8_t)a12,(uint8_t)a13,(uint8_t)a14,(uint8_t)a15}}; return r; }
static inline VPI(__m128i) VPI(_mm_setr_epi32)(int a0,int a1,int a2,int a3) { VPI(__m128i) r = {{(uint8_t)((uint32_t)a0 >> 0),(uint8_t)((uint32_t)a0 >> 8),(uint8_t)((uint32_t)a0 >> 16),(uint8_t)((uint32_t)a0 >> 24),(uint8_t)((uint32_t)a1 >> 0),(uint8_t)((uint32_t)a1 >> 8),(uint8_t)((uint32_t)a1 >> 16),(uint8_t)((uint32_t)a1 >> 24),(uint8_t)((uint32_t)a2 >> 0),(uint8_t)((uint32_t)a2 >> 8),(uint8_t)((uint32_t)a2 >> 16),(uint8_t)((uint32_t)a2 >> 24),(uint8_t)((uint32_t)a3 >> 0),(uint8_t)((uint32_t)a3 >> 8),(uint8_t)((uint32_t)a3 >> 16),(uint8_t)((uint32_t)a3 >> 24)}}; return r; }
typedef struct { uint8_t b[32]; } VPI(__m256i);
static inline VPI(__m256i) VPI(_mm256_loadu_si256)(const VPI(__m256i) *p) { VPI(__m256i) r; const uint8_t *q = (const uint8_t *)p; VPI_R(p, 32); for (int i = 0; i < 32; i++) r.b[i] = q[i]; return r; }
static inline VPI(__m256i) VPI(_mm256_load_si256)(const VPI(__m256i) *p) { return VPI(_mm256_loadu_si256)(p); }
static inline VPI(__m256i) VPI(_mm256_lddqu_si256)(const VPI(__m256i) *p) { return VPI(_mm256_loadu_si256)(p); }
static inline void VPI(_mm256_storeu_si256)(VPI(__m256i) *p, VPI(__m256i) v) { uint8_t *q = (uint8_t *)p; VPI_W(p, 32); for (int i = 0; i < 32; i++) q[i] = v.b[i]; }
static inline void VPI(_mm256_store_si256)(VPI(__m256i) *p, VPI(__m256i) v) { VPI(_mm256_storeu_si256)(p, v); }
static inline VPI(__m256i) VPI(_mm256_setzero_si256)(void) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = 0; return r; }
static inline VPI(__m256i) VPI(_mm256_set1_epi8)(char c) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)c; return r; }
static inline VPI(__m256i) VPI(_mm256_set1_epi32)(int c) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)((uint32_t)c >> (8 * (i & 3))); return r; }
static inline VPI(__m256i) VPI(_mm256_xor_si256)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] ^ b.b[i]; return r; }
static inline VPI(__m256i) VPI(_mm256_or_si256)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] | b.b[i]; return r; }
static inline VPI(__m256i) VPI(_mm256_and_si256)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] & b.b[i]; return r; }
static inline VPI(__m256i) VPI(_mm256_andnot_si256)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)~a.b[i] & b.b[i]; return r; }
static inline VPI(__m256i) VPI(_mm256_add_epi8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)(a.b[i] + b.b[i]); return r; }
static inline VPI(__m256i) VPI(_mm256_sub_epi8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)(a.b[i] - b.b[i]); return r; }
static inline VPI(__m256i) VPI(_mm256_adds_epu8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) { unsigned s = (unsigned)a.b[i] + b.b[i]; r.b[i] = s > 255 ? 255 : (uint8_t)s; } return r; }
static inline VPI(__m256i) VPI(_mm256_subs_epu8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] > b.b[i] ? (uint8_t)(a.b[i] - b.b[i]) : 0; return r; }
static inline VPI(__m256i) VPI(_mm256_max_epu8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] > b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline VPI(__m256i) VPI(_mm256_min_epu8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] < b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline VPI(__m256i) VPI(_mm256_cmpeq_epi8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] == b.b[i] ? 0xFF : 0; return r; }
static inline VPI(__m256i) VPI(_mm256_cmpgt_epi8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = (int8_t)a.b[i] > (int8_t)b.b[i] ? 0xFF : 0; return r; }
static inline VPI(__m256i) VPI(_mm256_srli_epi16)(VPI(__m256i) a, int n) { VPI(__m256i) r; for (int i = 0; i < 32; i += 2) { uint16_t w = (uint16_t)(a.b[i] | (a.b[i+1] << 8)); w = n > 15 ? 0 : (uint16_t)(w >> n); r.b[i] = (uint8_t)w; r.b[i+1] = (uint8_t)(w >> 8); } return r; }
static inline VPI(__m256i) VPI(_mm256_slli_epi16)(VPI(__m256i) a, int n) { VPI(__m256i) r; for (int i = 0; i < 32; i += 2) { uint16_t w = (uint16_t)(a.b[i] | (a.b[i+1] << 8)); w = n > 15 ? 0 : (uint16_t)(w << n); r.b[i] = (uint8_t)w; r.b[i+1] = (uint8_t)(w >> 8); } return r; }
static inline VPI(__m256i) VPI(_mm256_shuffle_epi8)(VPI(__m256i) a, VPI(__m256i) b) { VPI(__m256i) r; for (int i = 0; i < 32; i++) r.b[i] = (b.b[i] & 0x80) ? 0 : a.b[(i & 16) + (b.b[i] & 15)]; return r; }
static inline VPI(__m256i) VPI(_mm256_alignr_epi8)(VPI(__m256i) a, VPI(__m256i) b, int n) { VPI(__m256i) r; for (int i = 0; i < 32; i++) { int k = (i & 15) + n, base = i & 16; r.b[i] = k < 16 ? b.b[base + k] : k < 32 ? a.b[base + k - 16] : 0; } return r; }
static inline int VPI(_mm256_testz_si256)(VPI(__m256i) a, VPI(__m256i) b) { for (int i = 0; i < 32; i++) if (a.b[i] & b.b[i]) return 0; return 1; }
static inline int VPI(_mm256_movemask_epi8)(VPI(__m256i) a) { uint32_t m = 0; for (int i = 0; i < 32; i++) m |= (uint32_t)(a.b[i] >> 7) << i; return (int)m; }
static inline VPI(__m256i) VPI(_mm256_setr_epi8)(char a0,char a1,char a2,char a3,char a4,char a5,char a6,char a7,char a8,char a9,char a10,char a11,char a12,char a13,char a14,char a15,char a16,char a17,char a18,char a19,char a20,char a21,char a22,char a23,char a24,char a25,char a26,char a27,char a28,char a29,char a30,char a31) { VPI(__m256i) r = {{(uint8_t)a0,(uint8_t)a1,(uint8_t)a2,(uint8_t)a3,(uint8_t)a4,(uint8_t)a5,(uint8_t)a6,(uint8_t)a7,(uint8_t)a8,(uint8_t)a9,(uint8_t)a10,(uint8_t)a11,(uint8_t)a12,(uint8_t)a13,(uint8_t)a14,(uint8_t)a15,(uint8_t)a16,(uint8_t)a17,(uint8_t)a18,(uint8_t)a19,(uint8_t)a20,(uint8_t)a21,(uint8_t)a22,(uint8_t)a23,(uint8_t)a24,(uint8_t)a25,(uint8_t)a26,(uint8_t)a27,(uint8_t)a28,(uint8_t)a29,(uint8_t)a30,(uint8_t)a31}}; return r; }
static inline VPI(__m256i) VPI(_mm256_setr_epi32)(int a0,int a1,int a2,int a3,int a4,int a5,int a6,int a7) { VPI(__m256i) r = {{(uint8_t)((uint32_t)a0 >> 0),(uint8_t)((uint32_t)a0 >> 8),(uint8_t)((uint32_t)a0 >> 16),(uint8_t)((uint32_t)a0 >> 24),(uint8_t)((uint32_t)a1 >> 0),(uint8_t)((uint32_t)a1 >> 8),(uint8_t)((uint32_t)a1 >> 16),(uint8_t)((uint32_t)a1 >> 24),(uint8_t)((uint32_t)a2 >> 0),(uint8_t)((uint32_t)a2 >> 8),(uint8_t)((uint32_t)a2 >> 16),(uint8_t)((uint32_t)a2 >> 24),(uint8_t)((uint32_t)a3 >> 0),(uint8_t)((uint32_t)a3 >> 8),(uint8_t)((uint32_t)a3 >> 16),(uint8_t)((uint32_t)a3 >> 24),(uint8_t)((uint32_t)a4 >> 0),(uint8_t)((uint32_t)a4 >> 8),(uint8_t)((uint32_t)a4 >> 16),(uint8_t)((uint32_t)a4 >> 24),(uint8_t)((uint32_t)a5 >> 0),(uint8_t)((uint32_t)a5 >> 8),(uint8_t)((uint32_t)a5 >> 16),(uint8_t)((uint32_t)a5 >> 24),(uint8_t)((uint32_t)a6 >> 0),(uint8_t)((uint32_t)a6 >> 8),(uint8_t)((uint32_t)a6 >> 16),(uint8_t)((uint32_t)a6 >> 24),(uint8_t)((uint32_t)a7 >> 0),(uint8_t)((uint32_t)a7 >> 8),(uint8_t)((uint32_t)a7 >> 16),(uint8_t)((uint32_t)a7 >> 24)}}; return r; }
static inline VPI(__m256i) VPI(_mm256_permute2x128_si256)(VPI(__m256i) a, VPI(__m256i) b, int imm) {
    VPI(__m256i) r;
    for (int h = 0; h < 2; h++) { int c = (imm >> (4 * h)) & 15;
        for (int i = 0; i < 16; i++) r.b[16 * h + i] = (c & 8) ? 0 : (c & 2) ? b.b[16 * (c & 1) + i] : a.b[16 * (c & 1) + i]; }
    return r;
}
#ifndef VP_MODEL_INTRIN
#pragma CPROVER check pop
#endif
#endif
#endif
