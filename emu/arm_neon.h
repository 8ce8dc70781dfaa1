// Generated by gen.py : NEON intrinsics, emulated
#pragma once
#include <stdint.h>
#include <string.h>
typedef float float32_t; typedef double float64_t;
#define VF static inline __attribute__((unused, always_inline))

typedef int8_t int8x8_t __attribute__((vector_size(8)));
typedef int8_t int8x16_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef int16_t int16x4_t __attribute__((vector_size(8)));
typedef int16_t int16x8_t __attribute__((vector_size(16)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int64_t int64x1_t __attribute__((vector_size(8)));
typedef int64_t int64x2_t __attribute__((vector_size(16)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef float float32x4_t __attribute__((vector_size(16)));
typedef double float64x1_t __attribute__((vector_size(8)));
typedef double float64x2_t __attribute__((vector_size(16)));
typedef struct { int8x8_t val[2]; } int8x8x2_t;
typedef struct { int8x8_t val[3]; } int8x8x3_t;
typedef struct { int8x8_t val[4]; } int8x8x4_t;
typedef struct { int8x16_t val[2]; } int8x16x2_t;
typedef struct { int8x16_t val[3]; } int8x16x3_t;
typedef struct { int8x16_t val[4]; } int8x16x4_t;
typedef struct { uint8x8_t val[2]; } uint8x8x2_t;
typedef struct { uint8x8_t val[3]; } uint8x8x3_t;
typedef struct { uint8x8_t val[4]; } uint8x8x4_t;
typedef struct { uint8x16_t val[2]; } uint8x16x2_t;
typedef struct { uint8x16_t val[3]; } uint8x16x3_t;
typedef struct { uint8x16_t val[4]; } uint8x16x4_t;
typedef struct { int16x4_t val[2]; } int16x4x2_t;
typedef struct { int16x4_t val[3]; } int16x4x3_t;
typedef struct { int16x4_t val[4]; } int16x4x4_t;
typedef struct { int16x8_t val[2]; } int16x8x2_t;
typedef struct { int16x8_t val[3]; } int16x8x3_t;
typedef struct { int16x8_t val[4]; } int16x8x4_t;
typedef struct { uint16x4_t val[2]; } uint16x4x2_t;
typedef struct { uint16x4_t val[3]; } uint16x4x3_t;
typedef struct { uint16x4_t val[4]; } uint16x4x4_t;
typedef struct { uint16x8_t val[2]; } uint16x8x2_t;
typedef struct { uint16x8_t val[3]; } uint16x8x3_t;
typedef struct { uint16x8_t val[4]; } uint16x8x4_t;
typedef struct { int32x2_t val[2]; } int32x2x2_t;
typedef struct { int32x2_t val[3]; } int32x2x3_t;
typedef struct { int32x2_t val[4]; } int32x2x4_t;
typedef struct { int32x4_t val[2]; } int32x4x2_t;
typedef struct { int32x4_t val[3]; } int32x4x3_t;
typedef struct { int32x4_t val[4]; } int32x4x4_t;
typedef struct { uint32x2_t val[2]; } uint32x2x2_t;
typedef struct { uint32x2_t val[3]; } uint32x2x3_t;
typedef struct { uint32x2_t val[4]; } uint32x2x4_t;
typedef struct { uint32x4_t val[2]; } uint32x4x2_t;
typedef struct { uint32x4_t val[3]; } uint32x4x3_t;
typedef struct { uint32x4_t val[4]; } uint32x4x4_t;
typedef struct { int64x1_t val[2]; } int64x1x2_t;
typedef struct { int64x1_t val[3]; } int64x1x3_t;
typedef struct { int64x1_t val[4]; } int64x1x4_t;
typedef struct { int64x2_t val[2]; } int64x2x2_t;
typedef struct { int64x2_t val[3]; } int64x2x3_t;
typedef struct { int64x2_t val[4]; } int64x2x4_t;
typedef struct { uint64x1_t val[2]; } uint64x1x2_t;
typedef struct { uint64x1_t val[3]; } uint64x1x3_t;
typedef struct { uint64x1_t val[4]; } uint64x1x4_t;
typedef struct { uint64x2_t val[2]; } uint64x2x2_t;
typedef struct { uint64x2_t val[3]; } uint64x2x3_t;
typedef struct { uint64x2_t val[4]; } uint64x2x4_t;
typedef struct { float32x2_t val[2]; } float32x2x2_t;
typedef struct { float32x2_t val[3]; } float32x2x3_t;
typedef struct { float32x2_t val[4]; } float32x2x4_t;
typedef struct { float32x4_t val[2]; } float32x4x2_t;
typedef struct { float32x4_t val[3]; } float32x4x3_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
typedef struct { float64x1_t val[2]; } float64x1x2_t;
typedef struct { float64x1_t val[3]; } float64x1x3_t;
typedef struct { float64x1_t val[4]; } float64x1x4_t;
typedef struct { float64x2_t val[2]; } float64x2x2_t;
typedef struct { float64x2_t val[3]; } float64x2x3_t;
typedef struct { float64x2_t val[4]; } float64x2x4_t;
VF int8x8_t vld1_s8(const int8_t *p) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = p[i]; return r; }
VF void vst1_s8(int8_t *p, int8x8_t a) { for (int i = 0; i < 8; i++) p[i] = a[i]; }
VF int8x8_t vld1_dup_s8(const int8_t *p) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
#define vld1_lane_s8(p, v, l) __extension__({ int8x8_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_s8(p, v, l) (*(p) = (v)[l])
VF int8x8x2_t vld2_s8(const int8_t *p) { int8x8x2_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_s8(int8_t *p, int8x8x2_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int8x8x2_t vld1_s8_x2(const int8_t *p) { int8x8x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_s8(p + k*8); return r; }
VF int8x8x3_t vld3_s8(const int8_t *p) { int8x8x3_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_s8(int8_t *p, int8x8x3_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int8x8x3_t vld1_s8_x3(const int8_t *p) { int8x8x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_s8(p + k*8); return r; }
VF int8x8x4_t vld4_s8(const int8_t *p) { int8x8x4_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_s8(int8_t *p, int8x8x4_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int8x8x4_t vld1_s8_x4(const int8_t *p) { int8x8x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_s8(p + k*8); return r; }
VF int8x8_t vdup_n_s8(int8_t x) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF int8x8_t vmov_n_s8(int8_t x) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF int8x8_t vadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF int8x8_t vadd_n_s8(int8x8_t a, int8_t x) { return vadd_s8(a, vdup_n_s8(x)); }
VF int8x8_t vsub_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF int8x8_t vsub_n_s8(int8x8_t a, int8_t x) { return vsub_s8(a, vdup_n_s8(x)); }
VF int8x8_t vmul_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF int8x8_t vmul_n_s8(int8x8_t a, int8_t x) { return vmul_s8(a, vdup_n_s8(x)); }
VF int8x8_t vmla_s8(int8x8_t a, int8x8_t b, int8x8_t c) { return vadd_s8(a, vmul_s8(b, c)); }
VF int8x8_t vmls_s8(int8x8_t a, int8x8_t b, int8x8_t c) { return vsub_s8(a, vmul_s8(b, c)); }
VF int8x8_t vmla_n_s8(int8x8_t a, int8x8_t b, int8_t c) { return vmla_s8(a, b, vdup_n_s8(c)); }
VF int8x8_t vmls_n_s8(int8x8_t a, int8x8_t b, int8_t c) { return vmls_s8(a, b, vdup_n_s8(c)); }
VF int8x8_t vneg_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(0 - (uint8_t)a[i]); return r; }
VF int8x8_t vabs_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < 0 ? (int8_t)(0 - (uint8_t)a[i]) : a[i]; return r; }
VF int8x8_t vmax_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF int8_t vmaxv_s8(int8x8_t a) { int8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
VF int8x8_t vmin_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF int8_t vminv_s8(int8x8_t a) { int8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
VF int8x8_t vand_s8(int8x8_t a, int8x8_t b) { return a & b; }
VF int8x8_t vorr_s8(int8x8_t a, int8x8_t b) { return a | b; }
VF int8x8_t veor_s8(int8x8_t a, int8x8_t b) { return a ^ b; }
VF int8x8_t vbic_s8(int8x8_t a, int8x8_t b) { return a & ~b; }
VF int8x8_t vmvn_s8(int8x8_t a) { return ~a; }
#define vshl_n_s8(a, k) vf_shl_s8((a), (k))
VF int8x8_t vf_shl_s8(int8x8_t a, int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)((uint8_t)a[i] << k); return r; }
#define vshr_n_s8(a, k) vf_shr_s8((a), (k))
VF int8x8_t vf_shr_s8(int8x8_t a, int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = k >= 8 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_s8(a, k) vf_rshr_s8((a), (k))
VF int8x8_t vf_rshr_s8(int8x8_t a, int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int8x8_t vqadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int8_t)(t < -((__int128)1 << 7) ? -((__int128)1 << 7) : t > (((__int128)1 << 7) - 1) ? (((__int128)1 << 7) - 1) : t); } return r; }
VF int8x8_t vqsub_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int8_t)(t < -((__int128)1 << 7) ? -((__int128)1 << 7) : t > (((__int128)1 << 7) - 1) ? (((__int128)1 << 7) - 1) : t); } return r; }
VF int8x8_t vhadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF int8x8_t vrhadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF int8_t vaddv_s8(int8x8_t a) { int8_t r = 0; for (int i = 0; i < 8; i++) r = (int8_t)((unsigned)r + (unsigned)a[i]); return r; }
VF int8x8_t vpadd_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = (int8_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 4] = (int8_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint8x8_t vceq_s8(int8x8_t a, int8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] == b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vcgt_s8(int8x8_t a, int8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vcge_s8(int8x8_t a, int8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] >= b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vclt_s8(int8x8_t a, int8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vcle_s8(int8x8_t a, int8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] <= b[i] ? (uint8_t)-1 : 0; return r; }
VF int8x8_t vbsl_s8(uint8x8_t m, int8x8_t a, int8x8_t b) { return (int8x8_t)((m & (uint8x8_t)a) | (~m & (uint8x8_t)b)); }
#define vext_s8(a, b, k) vf_ext_s8((a), (b), (k))
VF int8x8_t vf_ext_s8(int8x8_t a, int8x8_t b, int k) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[(i + k) % 8] : b[(i + k) % 8]; return r; }
VF int8x8_t vtrn1_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF int8x8_t vtrn2_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF int8x8_t vzip1_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF int8x8_t vzip2_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i+4]; r[2*i+1] = b[i+4]; } return r; }
VF int8x8_t vuzp1_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i]; r[i+4] = b[2*i]; } return r; }
VF int8x8_t vuzp2_s8(int8x8_t a, int8x8_t b) { int8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i+1]; r[i+4] = b[2*i+1]; } return r; }
VF int8x8x2_t vtrn_s8(int8x8_t a, int8x8_t b) { return (int8x8x2_t){ { vtrn1_s8(a, b), vtrn2_s8(a, b) } }; }
VF int8x8x2_t vzip_s8(int8x8_t a, int8x8_t b) { return (int8x8x2_t){ { vzip1_s8(a, b), vzip2_s8(a, b) } }; }
VF int8x8x2_t vuzp_s8(int8x8_t a, int8x8_t b) { return (int8x8x2_t){ { vuzp1_s8(a, b), vuzp2_s8(a, b) } }; }
VF int8x8_t vrev16_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
VF int8x8_t vrev32_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
VF int8x8_t vrev64_s8(int8x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 7]; return r; }
#define vget_lane_s8(a, l) ((a)[l])
#define vset_lane_s8(x, a, l) __extension__({ int8x8_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_s8(a, l) vdup_n_s8((a)[l])
#define vdup_laneq_s8(a, l) vdup_n_s8((a)[l])
#define vmul_lane_s8(b, c, l) vmul_s8((b), vdup_n_s8((c)[l]))
#define vmul_laneq_s8(b, c, l) vmul_s8((b), vdup_n_s8((c)[l]))
#define vmla_lane_s8(a, b, c, l) vmla_s8((a), (b), vdup_n_s8((c)[l]))
#define vmla_laneq_s8(a, b, c, l) vmla_s8((a), (b), vdup_n_s8((c)[l]))
#define vmls_lane_s8(a, b, c, l) vmls_s8((a), (b), vdup_n_s8((c)[l]))
#define vmls_laneq_s8(a, b, c, l) vmls_s8((a), (b), vdup_n_s8((c)[l]))
VF int8x16_t vld1q_s8(const int8_t *p) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = p[i]; return r; }
VF void vst1q_s8(int8_t *p, int8x16_t a) { for (int i = 0; i < 16; i++) p[i] = a[i]; }
VF int8x16_t vld1q_dup_s8(const int8_t *p) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = *p; return r; }
#define vld1q_lane_s8(p, v, l) __extension__({ int8x16_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_s8(p, v, l) (*(p) = (v)[l])
VF int8x16x2_t vld2q_s8(const int8_t *p) { int8x16x2_t r; for (int i = 0; i < 16; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_s8(int8_t *p, int8x16x2_t a) { for (int i = 0; i < 16; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int8x16x2_t vld1q_s8_x2(const int8_t *p) { int8x16x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_s8(p + k*16); return r; }
VF int8x16x3_t vld3q_s8(const int8_t *p) { int8x16x3_t r; for (int i = 0; i < 16; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_s8(int8_t *p, int8x16x3_t a) { for (int i = 0; i < 16; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int8x16x3_t vld1q_s8_x3(const int8_t *p) { int8x16x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_s8(p + k*16); return r; }
VF int8x16x4_t vld4q_s8(const int8_t *p) { int8x16x4_t r; for (int i = 0; i < 16; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_s8(int8_t *p, int8x16x4_t a) { for (int i = 0; i < 16; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int8x16x4_t vld1q_s8_x4(const int8_t *p) { int8x16x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_s8(p + k*16); return r; }
VF int8x16_t vdupq_n_s8(int8_t x) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = x; return r; }
VF int8x16_t vmovq_n_s8(int8_t x) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = x; return r; }
VF int8x16_t vaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF int8x16_t vaddq_n_s8(int8x16_t a, int8_t x) { return vaddq_s8(a, vdupq_n_s8(x)); }
VF int8x16_t vsubq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF int8x16_t vsubq_n_s8(int8x16_t a, int8_t x) { return vsubq_s8(a, vdupq_n_s8(x)); }
VF int8x16_t vmulq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF int8x16_t vmulq_n_s8(int8x16_t a, int8_t x) { return vmulq_s8(a, vdupq_n_s8(x)); }
VF int8x16_t vmlaq_s8(int8x16_t a, int8x16_t b, int8x16_t c) { return vaddq_s8(a, vmulq_s8(b, c)); }
VF int8x16_t vmlsq_s8(int8x16_t a, int8x16_t b, int8x16_t c) { return vsubq_s8(a, vmulq_s8(b, c)); }
VF int8x16_t vmlaq_n_s8(int8x16_t a, int8x16_t b, int8_t c) { return vmlaq_s8(a, b, vdupq_n_s8(c)); }
VF int8x16_t vmlsq_n_s8(int8x16_t a, int8x16_t b, int8_t c) { return vmlsq_s8(a, b, vdupq_n_s8(c)); }
VF int8x16_t vnegq_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(0 - (uint8_t)a[i]); return r; }
VF int8x16_t vabsq_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] < 0 ? (int8_t)(0 - (uint8_t)a[i]) : a[i]; return r; }
VF int8x16_t vmaxq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF int8_t vmaxvq_s8(int8x16_t a) { int8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] > r ? a[i] : r; return r; }
VF int8x16_t vminq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF int8_t vminvq_s8(int8x16_t a) { int8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] < r ? a[i] : r; return r; }
VF int8x16_t vandq_s8(int8x16_t a, int8x16_t b) { return a & b; }
VF int8x16_t vorrq_s8(int8x16_t a, int8x16_t b) { return a | b; }
VF int8x16_t veorq_s8(int8x16_t a, int8x16_t b) { return a ^ b; }
VF int8x16_t vbicq_s8(int8x16_t a, int8x16_t b) { return a & ~b; }
VF int8x16_t vmvnq_s8(int8x16_t a) { return ~a; }
#define vshlq_n_s8(a, k) vf_shlq_s8((a), (k))
VF int8x16_t vf_shlq_s8(int8x16_t a, int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)((uint8_t)a[i] << k); return r; }
#define vshrq_n_s8(a, k) vf_shrq_s8((a), (k))
VF int8x16_t vf_shrq_s8(int8x16_t a, int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = k >= 8 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_s8(a, k) vf_rshrq_s8((a), (k))
VF int8x16_t vf_rshrq_s8(int8x16_t a, int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int8x16_t vqaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int8_t)(t < -((__int128)1 << 7) ? -((__int128)1 << 7) : t > (((__int128)1 << 7) - 1) ? (((__int128)1 << 7) - 1) : t); } return r; }
VF int8x16_t vqsubq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int8_t)(t < -((__int128)1 << 7) ? -((__int128)1 << 7) : t > (((__int128)1 << 7) - 1) ? (((__int128)1 << 7) - 1) : t); } return r; }
VF int8x16_t vhaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF int8x16_t vrhaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = (int8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF int8_t vaddvq_s8(int8x16_t a) { int8_t r = 0; for (int i = 0; i < 16; i++) r = (int8_t)((unsigned)r + (unsigned)a[i]); return r; }
VF int8x16_t vpaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = (int8_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 8] = (int8_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint8x16_t vceqq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] == b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcgtq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] > b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcgeq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] >= b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcltq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] < b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcleq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] <= b[i] ? (uint8_t)-1 : 0; return r; }
VF int8x16_t vbslq_s8(uint8x16_t m, int8x16_t a, int8x16_t b) { return (int8x16_t)((m & (uint8x16_t)a) | (~m & (uint8x16_t)b)); }
#define vextq_s8(a, b, k) vf_extq_s8((a), (b), (k))
VF int8x16_t vf_extq_s8(int8x16_t a, int8x16_t b, int k) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = i + k < 16 ? a[(i + k) % 16] : b[(i + k) % 16]; return r; }
VF int8x16_t vtrn1q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF int8x16_t vtrn2q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF int8x16_t vzip1q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF int8x16_t vzip2q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[i+8]; r[2*i+1] = b[i+8]; } return r; }
VF int8x16_t vuzp1q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2*i]; r[i+8] = b[2*i]; } return r; }
VF int8x16_t vuzp2q_s8(int8x16_t a, int8x16_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2*i+1]; r[i+8] = b[2*i+1]; } return r; }
VF int8x16x2_t vtrnq_s8(int8x16_t a, int8x16_t b) { return (int8x16x2_t){ { vtrn1q_s8(a, b), vtrn2q_s8(a, b) } }; }
VF int8x16x2_t vzipq_s8(int8x16_t a, int8x16_t b) { return (int8x16x2_t){ { vzip1q_s8(a, b), vzip2q_s8(a, b) } }; }
VF int8x16x2_t vuzpq_s8(int8x16_t a, int8x16_t b) { return (int8x16x2_t){ { vuzp1q_s8(a, b), vuzp2q_s8(a, b) } }; }
VF int8x16_t vrev16q_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 1]; return r; }
VF int8x16_t vrev32q_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 3]; return r; }
VF int8x16_t vrev64q_s8(int8x16_t a) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 7]; return r; }
#define vgetq_lane_s8(a, l) ((a)[l])
#define vsetq_lane_s8(x, a, l) __extension__({ int8x16_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_s8(a, l) vdupq_n_s8((a)[l])
#define vdupq_laneq_s8(a, l) vdupq_n_s8((a)[l])
#define vmulq_lane_s8(b, c, l) vmulq_s8((b), vdupq_n_s8((c)[l]))
#define vmulq_laneq_s8(b, c, l) vmulq_s8((b), vdupq_n_s8((c)[l]))
#define vmlaq_lane_s8(a, b, c, l) vmlaq_s8((a), (b), vdupq_n_s8((c)[l]))
#define vmlaq_laneq_s8(a, b, c, l) vmlaq_s8((a), (b), vdupq_n_s8((c)[l]))
#define vmlsq_lane_s8(a, b, c, l) vmlsq_s8((a), (b), vdupq_n_s8((c)[l]))
#define vmlsq_laneq_s8(a, b, c, l) vmlsq_s8((a), (b), vdupq_n_s8((c)[l]))
VF int8x16_t vcombine_s8(int8x8_t a, int8x8_t b) { int8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[i]; r[i+8] = b[i]; } return r; }
VF int8x8_t vget_low_s8(int8x16_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
VF int8x8_t vget_high_s8(int8x16_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i+8]; return r; }
VF int8x8_t vcreate_s8(uint64_t x) { int8x8_t r; memcpy(&r, &x, 8); return r; }
VF uint8x8_t vld1_u8(const uint8_t *p) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = p[i]; return r; }
VF void vst1_u8(uint8_t *p, uint8x8_t a) { for (int i = 0; i < 8; i++) p[i] = a[i]; }
VF uint8x8_t vld1_dup_u8(const uint8_t *p) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
#define vld1_lane_u8(p, v, l) __extension__({ uint8x8_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_u8(p, v, l) (*(p) = (v)[l])
VF uint8x8x2_t vld2_u8(const uint8_t *p) { uint8x8x2_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_u8(uint8_t *p, uint8x8x2_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint8x8x2_t vld1_u8_x2(const uint8_t *p) { uint8x8x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_u8(p + k*8); return r; }
VF uint8x8x3_t vld3_u8(const uint8_t *p) { uint8x8x3_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_u8(uint8_t *p, uint8x8x3_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint8x8x3_t vld1_u8_x3(const uint8_t *p) { uint8x8x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_u8(p + k*8); return r; }
VF uint8x8x4_t vld4_u8(const uint8_t *p) { uint8x8x4_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_u8(uint8_t *p, uint8x8x4_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint8x8x4_t vld1_u8_x4(const uint8_t *p) { uint8x8x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_u8(p + k*8); return r; }
VF uint8x8_t vdup_n_u8(uint8_t x) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF uint8x8_t vmov_n_u8(uint8_t x) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF uint8x8_t vadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF uint8x8_t vadd_n_u8(uint8x8_t a, uint8_t x) { return vadd_u8(a, vdup_n_u8(x)); }
VF uint8x8_t vsub_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF uint8x8_t vsub_n_u8(uint8x8_t a, uint8_t x) { return vsub_u8(a, vdup_n_u8(x)); }
VF uint8x8_t vmul_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF uint8x8_t vmul_n_u8(uint8x8_t a, uint8_t x) { return vmul_u8(a, vdup_n_u8(x)); }
VF uint8x8_t vmla_u8(uint8x8_t a, uint8x8_t b, uint8x8_t c) { return vadd_u8(a, vmul_u8(b, c)); }
VF uint8x8_t vmls_u8(uint8x8_t a, uint8x8_t b, uint8x8_t c) { return vsub_u8(a, vmul_u8(b, c)); }
VF uint8x8_t vmla_n_u8(uint8x8_t a, uint8x8_t b, uint8_t c) { return vmla_u8(a, b, vdup_n_u8(c)); }
VF uint8x8_t vmls_n_u8(uint8x8_t a, uint8x8_t b, uint8_t c) { return vmls_u8(a, b, vdup_n_u8(c)); }
VF uint8x8_t vmax_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF uint8_t vmaxv_u8(uint8x8_t a) { uint8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
VF uint8x8_t vmin_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF uint8_t vminv_u8(uint8x8_t a) { uint8_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
VF uint8x8_t vand_u8(uint8x8_t a, uint8x8_t b) { return a & b; }
VF uint8x8_t vorr_u8(uint8x8_t a, uint8x8_t b) { return a | b; }
VF uint8x8_t veor_u8(uint8x8_t a, uint8x8_t b) { return a ^ b; }
VF uint8x8_t vbic_u8(uint8x8_t a, uint8x8_t b) { return a & ~b; }
VF uint8x8_t vmvn_u8(uint8x8_t a) { return ~a; }
#define vshl_n_u8(a, k) vf_shl_u8((a), (k))
VF uint8x8_t vf_shl_u8(uint8x8_t a, int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)((uint8_t)a[i] << k); return r; }
#define vshr_n_u8(a, k) vf_shr_u8((a), (k))
VF uint8x8_t vf_shr_u8(uint8x8_t a, int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = k >= 8 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_u8(a, k) vf_rshr_u8((a), (k))
VF uint8x8_t vf_rshr_u8(uint8x8_t a, int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint8x8_t vqadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint8_t)(t < 0 ? 0 : t > (((__int128)1 << 8) - 1) ? (((__int128)1 << 8) - 1) : t); } return r; }
VF uint8x8_t vqsub_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint8_t)(t < 0 ? 0 : t > (((__int128)1 << 8) - 1) ? (((__int128)1 << 8) - 1) : t); } return r; }
VF uint8x8_t vhadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF uint8x8_t vrhadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF uint8_t vaddv_u8(uint8x8_t a) { uint8_t r = 0; for (int i = 0; i < 8; i++) r = (uint8_t)((unsigned)r + (unsigned)a[i]); return r; }
VF uint8x8_t vpadd_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = (uint8_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 4] = (uint8_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint8x8_t vceq_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] == b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vcgt_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vcge_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] >= b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vclt_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vcle_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] <= b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x8_t vbsl_u8(uint8x8_t m, uint8x8_t a, uint8x8_t b) { return (uint8x8_t)((m & (uint8x8_t)a) | (~m & (uint8x8_t)b)); }
#define vext_u8(a, b, k) vf_ext_u8((a), (b), (k))
VF uint8x8_t vf_ext_u8(uint8x8_t a, uint8x8_t b, int k) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[(i + k) % 8] : b[(i + k) % 8]; return r; }
VF uint8x8_t vtrn1_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF uint8x8_t vtrn2_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF uint8x8_t vzip1_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF uint8x8_t vzip2_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i+4]; r[2*i+1] = b[i+4]; } return r; }
VF uint8x8_t vuzp1_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i]; r[i+4] = b[2*i]; } return r; }
VF uint8x8_t vuzp2_u8(uint8x8_t a, uint8x8_t b) { uint8x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i+1]; r[i+4] = b[2*i+1]; } return r; }
VF uint8x8x2_t vtrn_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8x2_t){ { vtrn1_u8(a, b), vtrn2_u8(a, b) } }; }
VF uint8x8x2_t vzip_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8x2_t){ { vzip1_u8(a, b), vzip2_u8(a, b) } }; }
VF uint8x8x2_t vuzp_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8x2_t){ { vuzp1_u8(a, b), vuzp2_u8(a, b) } }; }
VF uint8x8_t vrev16_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
VF uint8x8_t vrev32_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
VF uint8x8_t vrev64_u8(uint8x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 7]; return r; }
#define vget_lane_u8(a, l) ((a)[l])
#define vset_lane_u8(x, a, l) __extension__({ uint8x8_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_u8(a, l) vdup_n_u8((a)[l])
#define vdup_laneq_u8(a, l) vdup_n_u8((a)[l])
#define vmul_lane_u8(b, c, l) vmul_u8((b), vdup_n_u8((c)[l]))
#define vmul_laneq_u8(b, c, l) vmul_u8((b), vdup_n_u8((c)[l]))
#define vmla_lane_u8(a, b, c, l) vmla_u8((a), (b), vdup_n_u8((c)[l]))
#define vmla_laneq_u8(a, b, c, l) vmla_u8((a), (b), vdup_n_u8((c)[l]))
#define vmls_lane_u8(a, b, c, l) vmls_u8((a), (b), vdup_n_u8((c)[l]))
#define vmls_laneq_u8(a, b, c, l) vmls_u8((a), (b), vdup_n_u8((c)[l]))
VF uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = p[i]; return r; }
VF void vst1q_u8(uint8_t *p, uint8x16_t a) { for (int i = 0; i < 16; i++) p[i] = a[i]; }
VF uint8x16_t vld1q_dup_u8(const uint8_t *p) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = *p; return r; }
#define vld1q_lane_u8(p, v, l) __extension__({ uint8x16_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_u8(p, v, l) (*(p) = (v)[l])
VF uint8x16x2_t vld2q_u8(const uint8_t *p) { uint8x16x2_t r; for (int i = 0; i < 16; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_u8(uint8_t *p, uint8x16x2_t a) { for (int i = 0; i < 16; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint8x16x2_t vld1q_u8_x2(const uint8_t *p) { uint8x16x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_u8(p + k*16); return r; }
VF uint8x16x3_t vld3q_u8(const uint8_t *p) { uint8x16x3_t r; for (int i = 0; i < 16; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_u8(uint8_t *p, uint8x16x3_t a) { for (int i = 0; i < 16; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint8x16x3_t vld1q_u8_x3(const uint8_t *p) { uint8x16x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_u8(p + k*16); return r; }
VF uint8x16x4_t vld4q_u8(const uint8_t *p) { uint8x16x4_t r; for (int i = 0; i < 16; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_u8(uint8_t *p, uint8x16x4_t a) { for (int i = 0; i < 16; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint8x16x4_t vld1q_u8_x4(const uint8_t *p) { uint8x16x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_u8(p + k*16); return r; }
VF uint8x16_t vdupq_n_u8(uint8_t x) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = x; return r; }
VF uint8x16_t vmovq_n_u8(uint8_t x) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = x; return r; }
VF uint8x16_t vaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF uint8x16_t vaddq_n_u8(uint8x16_t a, uint8_t x) { return vaddq_u8(a, vdupq_n_u8(x)); }
VF uint8x16_t vsubq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF uint8x16_t vsubq_n_u8(uint8x16_t a, uint8_t x) { return vsubq_u8(a, vdupq_n_u8(x)); }
VF uint8x16_t vmulq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF uint8x16_t vmulq_n_u8(uint8x16_t a, uint8_t x) { return vmulq_u8(a, vdupq_n_u8(x)); }
VF uint8x16_t vmlaq_u8(uint8x16_t a, uint8x16_t b, uint8x16_t c) { return vaddq_u8(a, vmulq_u8(b, c)); }
VF uint8x16_t vmlsq_u8(uint8x16_t a, uint8x16_t b, uint8x16_t c) { return vsubq_u8(a, vmulq_u8(b, c)); }
VF uint8x16_t vmlaq_n_u8(uint8x16_t a, uint8x16_t b, uint8_t c) { return vmlaq_u8(a, b, vdupq_n_u8(c)); }
VF uint8x16_t vmlsq_n_u8(uint8x16_t a, uint8x16_t b, uint8_t c) { return vmlsq_u8(a, b, vdupq_n_u8(c)); }
VF uint8x16_t vmaxq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF uint8_t vmaxvq_u8(uint8x16_t a) { uint8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] > r ? a[i] : r; return r; }
VF uint8x16_t vminq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF uint8_t vminvq_u8(uint8x16_t a) { uint8_t r = a[0]; for (int i = 1; i < 16; i++) r = a[i] < r ? a[i] : r; return r; }
VF uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { return a & b; }
VF uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { return a | b; }
VF uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) { return a ^ b; }
VF uint8x16_t vbicq_u8(uint8x16_t a, uint8x16_t b) { return a & ~b; }
VF uint8x16_t vmvnq_u8(uint8x16_t a) { return ~a; }
#define vshlq_n_u8(a, k) vf_shlq_u8((a), (k))
VF uint8x16_t vf_shlq_u8(uint8x16_t a, int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((uint8_t)a[i] << k); return r; }
#define vshrq_n_u8(a, k) vf_shrq_u8((a), (k))
VF uint8x16_t vf_shrq_u8(uint8x16_t a, int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = k >= 8 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_u8(a, k) vf_rshrq_u8((a), (k))
VF uint8x16_t vf_rshrq_u8(uint8x16_t a, int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint8x16_t vqaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint8_t)(t < 0 ? 0 : t > (((__int128)1 << 8) - 1) ? (((__int128)1 << 8) - 1) : t); } return r; }
VF uint8x16_t vqsubq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint8_t)(t < 0 ? 0 : t > (((__int128)1 << 8) - 1) ? (((__int128)1 << 8) - 1) : t); } return r; }
VF uint8x16_t vhaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF uint8x16_t vrhaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = (uint8_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF uint8_t vaddvq_u8(uint8x16_t a) { uint8_t r = 0; for (int i = 0; i < 16; i++) r = (uint8_t)((unsigned)r + (unsigned)a[i]); return r; }
VF uint8x16_t vpaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = (uint8_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 8] = (uint8_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint8x16_t vceqq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] == b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcgtq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] > b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcgeq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] >= b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcltq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] < b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vcleq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i] <= b[i] ? (uint8_t)-1 : 0; return r; }
VF uint8x16_t vbslq_u8(uint8x16_t m, uint8x16_t a, uint8x16_t b) { return (uint8x16_t)((m & (uint8x16_t)a) | (~m & (uint8x16_t)b)); }
#define vextq_u8(a, b, k) vf_extq_u8((a), (b), (k))
VF uint8x16_t vf_extq_u8(uint8x16_t a, uint8x16_t b, int k) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = i + k < 16 ? a[(i + k) % 16] : b[(i + k) % 16]; return r; }
VF uint8x16_t vtrn1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF uint8x16_t vtrn2q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF uint8x16_t vzip1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF uint8x16_t vzip2q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[i+8]; r[2*i+1] = b[i+8]; } return r; }
VF uint8x16_t vuzp1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2*i]; r[i+8] = b[2*i]; } return r; }
VF uint8x16_t vuzp2q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[2*i+1]; r[i+8] = b[2*i+1]; } return r; }
VF uint8x16x2_t vtrnq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16x2_t){ { vtrn1q_u8(a, b), vtrn2q_u8(a, b) } }; }
VF uint8x16x2_t vzipq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16x2_t){ { vzip1q_u8(a, b), vzip2q_u8(a, b) } }; }
VF uint8x16x2_t vuzpq_u8(uint8x16_t a, uint8x16_t b) { return (uint8x16x2_t){ { vuzp1q_u8(a, b), vuzp2q_u8(a, b) } }; }
VF uint8x16_t vrev16q_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 1]; return r; }
VF uint8x16_t vrev32q_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 3]; return r; }
VF uint8x16_t vrev64q_u8(uint8x16_t a) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = a[i ^ 7]; return r; }
#define vgetq_lane_u8(a, l) ((a)[l])
#define vsetq_lane_u8(x, a, l) __extension__({ uint8x16_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_u8(a, l) vdupq_n_u8((a)[l])
#define vdupq_laneq_u8(a, l) vdupq_n_u8((a)[l])
#define vmulq_lane_u8(b, c, l) vmulq_u8((b), vdupq_n_u8((c)[l]))
#define vmulq_laneq_u8(b, c, l) vmulq_u8((b), vdupq_n_u8((c)[l]))
#define vmlaq_lane_u8(a, b, c, l) vmlaq_u8((a), (b), vdupq_n_u8((c)[l]))
#define vmlaq_laneq_u8(a, b, c, l) vmlaq_u8((a), (b), vdupq_n_u8((c)[l]))
#define vmlsq_lane_u8(a, b, c, l) vmlsq_u8((a), (b), vdupq_n_u8((c)[l]))
#define vmlsq_laneq_u8(a, b, c, l) vmlsq_u8((a), (b), vdupq_n_u8((c)[l]))
VF uint8x16_t vcombine_u8(uint8x8_t a, uint8x8_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[i] = a[i]; r[i+8] = b[i]; } return r; }
VF uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
VF uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i+8]; return r; }
VF uint8x8_t vcreate_u8(uint64_t x) { uint8x8_t r; memcpy(&r, &x, 8); return r; }
VF int16x4_t vld1_s16(const int16_t *p) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = p[i]; return r; }
VF void vst1_s16(int16_t *p, int16x4_t a) { for (int i = 0; i < 4; i++) p[i] = a[i]; }
VF int16x4_t vld1_dup_s16(const int16_t *p) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
#define vld1_lane_s16(p, v, l) __extension__({ int16x4_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_s16(p, v, l) (*(p) = (v)[l])
VF int16x4x2_t vld2_s16(const int16_t *p) { int16x4x2_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_s16(int16_t *p, int16x4x2_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int16x4x2_t vld1_s16_x2(const int16_t *p) { int16x4x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_s16(p + k*4); return r; }
VF int16x4x3_t vld3_s16(const int16_t *p) { int16x4x3_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_s16(int16_t *p, int16x4x3_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int16x4x3_t vld1_s16_x3(const int16_t *p) { int16x4x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_s16(p + k*4); return r; }
VF int16x4x4_t vld4_s16(const int16_t *p) { int16x4x4_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_s16(int16_t *p, int16x4x4_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int16x4x4_t vld1_s16_x4(const int16_t *p) { int16x4x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_s16(p + k*4); return r; }
VF int16x4_t vdup_n_s16(int16_t x) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF int16x4_t vmov_n_s16(int16_t x) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF int16x4_t vadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF int16x4_t vadd_n_s16(int16x4_t a, int16_t x) { return vadd_s16(a, vdup_n_s16(x)); }
VF int16x4_t vsub_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF int16x4_t vsub_n_s16(int16x4_t a, int16_t x) { return vsub_s16(a, vdup_n_s16(x)); }
VF int16x4_t vmul_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF int16x4_t vmul_n_s16(int16x4_t a, int16_t x) { return vmul_s16(a, vdup_n_s16(x)); }
VF int16x4_t vmla_s16(int16x4_t a, int16x4_t b, int16x4_t c) { return vadd_s16(a, vmul_s16(b, c)); }
VF int16x4_t vmls_s16(int16x4_t a, int16x4_t b, int16x4_t c) { return vsub_s16(a, vmul_s16(b, c)); }
VF int16x4_t vmla_n_s16(int16x4_t a, int16x4_t b, int16_t c) { return vmla_s16(a, b, vdup_n_s16(c)); }
VF int16x4_t vmls_n_s16(int16x4_t a, int16x4_t b, int16_t c) { return vmls_s16(a, b, vdup_n_s16(c)); }
VF int16x4_t vneg_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(0 - (uint16_t)a[i]); return r; }
VF int16x4_t vabs_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < 0 ? (int16_t)(0 - (uint16_t)a[i]) : a[i]; return r; }
VF int16x4_t vmax_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF int16_t vmaxv_s16(int16x4_t a) { int16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
VF int16x4_t vmin_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF int16_t vminv_s16(int16x4_t a) { int16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
VF int16x4_t vand_s16(int16x4_t a, int16x4_t b) { return a & b; }
VF int16x4_t vorr_s16(int16x4_t a, int16x4_t b) { return a | b; }
VF int16x4_t veor_s16(int16x4_t a, int16x4_t b) { return a ^ b; }
VF int16x4_t vbic_s16(int16x4_t a, int16x4_t b) { return a & ~b; }
VF int16x4_t vmvn_s16(int16x4_t a) { return ~a; }
#define vshl_n_s16(a, k) vf_shl_s16((a), (k))
VF int16x4_t vf_shl_s16(int16x4_t a, int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)((uint16_t)a[i] << k); return r; }
#define vshr_n_s16(a, k) vf_shr_s16((a), (k))
VF int16x4_t vf_shr_s16(int16x4_t a, int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = k >= 16 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_s16(a, k) vf_rshr_s16((a), (k))
VF int16x4_t vf_rshr_s16(int16x4_t a, int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int16x4_t vqadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int16_t)(t < -((__int128)1 << 15) ? -((__int128)1 << 15) : t > (((__int128)1 << 15) - 1) ? (((__int128)1 << 15) - 1) : t); } return r; }
VF int16x4_t vqsub_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int16_t)(t < -((__int128)1 << 15) ? -((__int128)1 << 15) : t > (((__int128)1 << 15) - 1) ? (((__int128)1 << 15) - 1) : t); } return r; }
VF int16x4_t vhadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF int16x4_t vrhadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF int16_t vaddv_s16(int16x4_t a) { int16_t r = 0; for (int i = 0; i < 4; i++) r = (int16_t)((unsigned)r + (unsigned)a[i]); return r; }
VF int16x4_t vpadd_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = (int16_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 2] = (int16_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint16x4_t vceq_s16(int16x4_t a, int16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] == b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vcgt_s16(int16x4_t a, int16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vcge_s16(int16x4_t a, int16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] >= b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vclt_s16(int16x4_t a, int16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vcle_s16(int16x4_t a, int16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] <= b[i] ? (uint16_t)-1 : 0; return r; }
VF int16x4_t vbsl_s16(uint16x4_t m, int16x4_t a, int16x4_t b) { return (int16x4_t)((m & (uint16x4_t)a) | (~m & (uint16x4_t)b)); }
#define vext_s16(a, b, k) vf_ext_s16((a), (b), (k))
VF int16x4_t vf_ext_s16(int16x4_t a, int16x4_t b, int k) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[(i + k) % 4] : b[(i + k) % 4]; return r; }
VF int16x4_t vtrn1_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF int16x4_t vtrn2_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF int16x4_t vzip1_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF int16x4_t vzip2_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i+2]; r[2*i+1] = b[i+2]; } return r; }
VF int16x4_t vuzp1_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i]; r[i+2] = b[2*i]; } return r; }
VF int16x4_t vuzp2_s16(int16x4_t a, int16x4_t b) { int16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i+1]; r[i+2] = b[2*i+1]; } return r; }
VF int16x4x2_t vtrn_s16(int16x4_t a, int16x4_t b) { return (int16x4x2_t){ { vtrn1_s16(a, b), vtrn2_s16(a, b) } }; }
VF int16x4x2_t vzip_s16(int16x4_t a, int16x4_t b) { return (int16x4x2_t){ { vzip1_s16(a, b), vzip2_s16(a, b) } }; }
VF int16x4x2_t vuzp_s16(int16x4_t a, int16x4_t b) { return (int16x4x2_t){ { vuzp1_s16(a, b), vuzp2_s16(a, b) } }; }
VF int16x4_t vrev32_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
VF int16x4_t vrev64_s16(int16x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 3]; return r; }
#define vget_lane_s16(a, l) ((a)[l])
#define vset_lane_s16(x, a, l) __extension__({ int16x4_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_s16(a, l) vdup_n_s16((a)[l])
#define vdup_laneq_s16(a, l) vdup_n_s16((a)[l])
#define vmul_lane_s16(b, c, l) vmul_s16((b), vdup_n_s16((c)[l]))
#define vmul_laneq_s16(b, c, l) vmul_s16((b), vdup_n_s16((c)[l]))
#define vmla_lane_s16(a, b, c, l) vmla_s16((a), (b), vdup_n_s16((c)[l]))
#define vmla_laneq_s16(a, b, c, l) vmla_s16((a), (b), vdup_n_s16((c)[l]))
#define vmls_lane_s16(a, b, c, l) vmls_s16((a), (b), vdup_n_s16((c)[l]))
#define vmls_laneq_s16(a, b, c, l) vmls_s16((a), (b), vdup_n_s16((c)[l]))
VF int16x8_t vld1q_s16(const int16_t *p) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = p[i]; return r; }
VF void vst1q_s16(int16_t *p, int16x8_t a) { for (int i = 0; i < 8; i++) p[i] = a[i]; }
VF int16x8_t vld1q_dup_s16(const int16_t *p) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
#define vld1q_lane_s16(p, v, l) __extension__({ int16x8_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_s16(p, v, l) (*(p) = (v)[l])
VF int16x8x2_t vld2q_s16(const int16_t *p) { int16x8x2_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_s16(int16_t *p, int16x8x2_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int16x8x2_t vld1q_s16_x2(const int16_t *p) { int16x8x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_s16(p + k*8); return r; }
VF int16x8x3_t vld3q_s16(const int16_t *p) { int16x8x3_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_s16(int16_t *p, int16x8x3_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int16x8x3_t vld1q_s16_x3(const int16_t *p) { int16x8x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_s16(p + k*8); return r; }
VF int16x8x4_t vld4q_s16(const int16_t *p) { int16x8x4_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_s16(int16_t *p, int16x8x4_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int16x8x4_t vld1q_s16_x4(const int16_t *p) { int16x8x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_s16(p + k*8); return r; }
VF int16x8_t vdupq_n_s16(int16_t x) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF int16x8_t vmovq_n_s16(int16_t x) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF int16x8_t vaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF int16x8_t vaddq_n_s16(int16x8_t a, int16_t x) { return vaddq_s16(a, vdupq_n_s16(x)); }
VF int16x8_t vsubq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF int16x8_t vsubq_n_s16(int16x8_t a, int16_t x) { return vsubq_s16(a, vdupq_n_s16(x)); }
VF int16x8_t vmulq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF int16x8_t vmulq_n_s16(int16x8_t a, int16_t x) { return vmulq_s16(a, vdupq_n_s16(x)); }
VF int16x8_t vmlaq_s16(int16x8_t a, int16x8_t b, int16x8_t c) { return vaddq_s16(a, vmulq_s16(b, c)); }
VF int16x8_t vmlsq_s16(int16x8_t a, int16x8_t b, int16x8_t c) { return vsubq_s16(a, vmulq_s16(b, c)); }
VF int16x8_t vmlaq_n_s16(int16x8_t a, int16x8_t b, int16_t c) { return vmlaq_s16(a, b, vdupq_n_s16(c)); }
VF int16x8_t vmlsq_n_s16(int16x8_t a, int16x8_t b, int16_t c) { return vmlsq_s16(a, b, vdupq_n_s16(c)); }
VF int16x8_t vnegq_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(0 - (uint16_t)a[i]); return r; }
VF int16x8_t vabsq_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < 0 ? (int16_t)(0 - (uint16_t)a[i]) : a[i]; return r; }
VF int16x8_t vmaxq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF int16_t vmaxvq_s16(int16x8_t a) { int16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
VF int16x8_t vminq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF int16_t vminvq_s16(int16x8_t a) { int16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
VF int16x8_t vandq_s16(int16x8_t a, int16x8_t b) { return a & b; }
VF int16x8_t vorrq_s16(int16x8_t a, int16x8_t b) { return a | b; }
VF int16x8_t veorq_s16(int16x8_t a, int16x8_t b) { return a ^ b; }
VF int16x8_t vbicq_s16(int16x8_t a, int16x8_t b) { return a & ~b; }
VF int16x8_t vmvnq_s16(int16x8_t a) { return ~a; }
#define vshlq_n_s16(a, k) vf_shlq_s16((a), (k))
VF int16x8_t vf_shlq_s16(int16x8_t a, int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint16_t)a[i] << k); return r; }
#define vshrq_n_s16(a, k) vf_shrq_s16((a), (k))
VF int16x8_t vf_shrq_s16(int16x8_t a, int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = k >= 16 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_s16(a, k) vf_rshrq_s16((a), (k))
VF int16x8_t vf_rshrq_s16(int16x8_t a, int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int16x8_t vqaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int16_t)(t < -((__int128)1 << 15) ? -((__int128)1 << 15) : t > (((__int128)1 << 15) - 1) ? (((__int128)1 << 15) - 1) : t); } return r; }
VF int16x8_t vqsubq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int16_t)(t < -((__int128)1 << 15) ? -((__int128)1 << 15) : t > (((__int128)1 << 15) - 1) ? (((__int128)1 << 15) - 1) : t); } return r; }
VF int16x8_t vhaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF int16x8_t vrhaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF int16_t vaddvq_s16(int16x8_t a) { int16_t r = 0; for (int i = 0; i < 8; i++) r = (int16_t)((unsigned)r + (unsigned)a[i]); return r; }
VF int16x8_t vpaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = (int16_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 4] = (int16_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint16x8_t vceqq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] == b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcgtq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcgeq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] >= b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcltq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcleq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] <= b[i] ? (uint16_t)-1 : 0; return r; }
VF int16x8_t vbslq_s16(uint16x8_t m, int16x8_t a, int16x8_t b) { return (int16x8_t)((m & (uint16x8_t)a) | (~m & (uint16x8_t)b)); }
#define vextq_s16(a, b, k) vf_extq_s16((a), (b), (k))
VF int16x8_t vf_extq_s16(int16x8_t a, int16x8_t b, int k) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[(i + k) % 8] : b[(i + k) % 8]; return r; }
VF int16x8_t vtrn1q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF int16x8_t vtrn2q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF int16x8_t vzip1q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF int16x8_t vzip2q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i+4]; r[2*i+1] = b[i+4]; } return r; }
VF int16x8_t vuzp1q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i]; r[i+4] = b[2*i]; } return r; }
VF int16x8_t vuzp2q_s16(int16x8_t a, int16x8_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i+1]; r[i+4] = b[2*i+1]; } return r; }
VF int16x8x2_t vtrnq_s16(int16x8_t a, int16x8_t b) { return (int16x8x2_t){ { vtrn1q_s16(a, b), vtrn2q_s16(a, b) } }; }
VF int16x8x2_t vzipq_s16(int16x8_t a, int16x8_t b) { return (int16x8x2_t){ { vzip1q_s16(a, b), vzip2q_s16(a, b) } }; }
VF int16x8x2_t vuzpq_s16(int16x8_t a, int16x8_t b) { return (int16x8x2_t){ { vuzp1q_s16(a, b), vuzp2q_s16(a, b) } }; }
VF int16x8_t vrev32q_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
VF int16x8_t vrev64q_s16(int16x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
#define vgetq_lane_s16(a, l) ((a)[l])
#define vsetq_lane_s16(x, a, l) __extension__({ int16x8_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_s16(a, l) vdupq_n_s16((a)[l])
#define vdupq_laneq_s16(a, l) vdupq_n_s16((a)[l])
#define vmulq_lane_s16(b, c, l) vmulq_s16((b), vdupq_n_s16((c)[l]))
#define vmulq_laneq_s16(b, c, l) vmulq_s16((b), vdupq_n_s16((c)[l]))
#define vmlaq_lane_s16(a, b, c, l) vmlaq_s16((a), (b), vdupq_n_s16((c)[l]))
#define vmlaq_laneq_s16(a, b, c, l) vmlaq_s16((a), (b), vdupq_n_s16((c)[l]))
#define vmlsq_lane_s16(a, b, c, l) vmlsq_s16((a), (b), vdupq_n_s16((c)[l]))
#define vmlsq_laneq_s16(a, b, c, l) vmlsq_s16((a), (b), vdupq_n_s16((c)[l]))
VF int16x8_t vcombine_s16(int16x4_t a, int16x4_t b) { int16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[i]; r[i+4] = b[i]; } return r; }
VF int16x4_t vget_low_s16(int16x8_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i]; return r; }
VF int16x4_t vget_high_s16(int16x8_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i+4]; return r; }
VF int16x4_t vcreate_s16(uint64_t x) { int16x4_t r; memcpy(&r, &x, 8); return r; }
VF uint16x4_t vld1_u16(const uint16_t *p) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = p[i]; return r; }
VF void vst1_u16(uint16_t *p, uint16x4_t a) { for (int i = 0; i < 4; i++) p[i] = a[i]; }
VF uint16x4_t vld1_dup_u16(const uint16_t *p) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
#define vld1_lane_u16(p, v, l) __extension__({ uint16x4_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_u16(p, v, l) (*(p) = (v)[l])
VF uint16x4x2_t vld2_u16(const uint16_t *p) { uint16x4x2_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_u16(uint16_t *p, uint16x4x2_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint16x4x2_t vld1_u16_x2(const uint16_t *p) { uint16x4x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_u16(p + k*4); return r; }
VF uint16x4x3_t vld3_u16(const uint16_t *p) { uint16x4x3_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_u16(uint16_t *p, uint16x4x3_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint16x4x3_t vld1_u16_x3(const uint16_t *p) { uint16x4x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_u16(p + k*4); return r; }
VF uint16x4x4_t vld4_u16(const uint16_t *p) { uint16x4x4_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_u16(uint16_t *p, uint16x4x4_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint16x4x4_t vld1_u16_x4(const uint16_t *p) { uint16x4x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_u16(p + k*4); return r; }
VF uint16x4_t vdup_n_u16(uint16_t x) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF uint16x4_t vmov_n_u16(uint16_t x) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF uint16x4_t vadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF uint16x4_t vadd_n_u16(uint16x4_t a, uint16_t x) { return vadd_u16(a, vdup_n_u16(x)); }
VF uint16x4_t vsub_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF uint16x4_t vsub_n_u16(uint16x4_t a, uint16_t x) { return vsub_u16(a, vdup_n_u16(x)); }
VF uint16x4_t vmul_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF uint16x4_t vmul_n_u16(uint16x4_t a, uint16_t x) { return vmul_u16(a, vdup_n_u16(x)); }
VF uint16x4_t vmla_u16(uint16x4_t a, uint16x4_t b, uint16x4_t c) { return vadd_u16(a, vmul_u16(b, c)); }
VF uint16x4_t vmls_u16(uint16x4_t a, uint16x4_t b, uint16x4_t c) { return vsub_u16(a, vmul_u16(b, c)); }
VF uint16x4_t vmla_n_u16(uint16x4_t a, uint16x4_t b, uint16_t c) { return vmla_u16(a, b, vdup_n_u16(c)); }
VF uint16x4_t vmls_n_u16(uint16x4_t a, uint16x4_t b, uint16_t c) { return vmls_u16(a, b, vdup_n_u16(c)); }
VF uint16x4_t vmax_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF uint16_t vmaxv_u16(uint16x4_t a) { uint16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
VF uint16x4_t vmin_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF uint16_t vminv_u16(uint16x4_t a) { uint16_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
VF uint16x4_t vand_u16(uint16x4_t a, uint16x4_t b) { return a & b; }
VF uint16x4_t vorr_u16(uint16x4_t a, uint16x4_t b) { return a | b; }
VF uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b) { return a ^ b; }
VF uint16x4_t vbic_u16(uint16x4_t a, uint16x4_t b) { return a & ~b; }
VF uint16x4_t vmvn_u16(uint16x4_t a) { return ~a; }
#define vshl_n_u16(a, k) vf_shl_u16((a), (k))
VF uint16x4_t vf_shl_u16(uint16x4_t a, int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)((uint16_t)a[i] << k); return r; }
#define vshr_n_u16(a, k) vf_shr_u16((a), (k))
VF uint16x4_t vf_shr_u16(uint16x4_t a, int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = k >= 16 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_u16(a, k) vf_rshr_u16((a), (k))
VF uint16x4_t vf_rshr_u16(uint16x4_t a, int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint16x4_t vqadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint16_t)(t < 0 ? 0 : t > (((__int128)1 << 16) - 1) ? (((__int128)1 << 16) - 1) : t); } return r; }
VF uint16x4_t vqsub_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint16_t)(t < 0 ? 0 : t > (((__int128)1 << 16) - 1) ? (((__int128)1 << 16) - 1) : t); } return r; }
VF uint16x4_t vhadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF uint16x4_t vrhadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF uint16_t vaddv_u16(uint16x4_t a) { uint16_t r = 0; for (int i = 0; i < 4; i++) r = (uint16_t)((unsigned)r + (unsigned)a[i]); return r; }
VF uint16x4_t vpadd_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = (uint16_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 2] = (uint16_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint16x4_t vceq_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] == b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vcgt_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vcge_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] >= b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vclt_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vcle_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] <= b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x4_t vbsl_u16(uint16x4_t m, uint16x4_t a, uint16x4_t b) { return (uint16x4_t)((m & (uint16x4_t)a) | (~m & (uint16x4_t)b)); }
#define vext_u16(a, b, k) vf_ext_u16((a), (b), (k))
VF uint16x4_t vf_ext_u16(uint16x4_t a, uint16x4_t b, int k) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[(i + k) % 4] : b[(i + k) % 4]; return r; }
VF uint16x4_t vtrn1_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF uint16x4_t vtrn2_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF uint16x4_t vzip1_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF uint16x4_t vzip2_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i+2]; r[2*i+1] = b[i+2]; } return r; }
VF uint16x4_t vuzp1_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i]; r[i+2] = b[2*i]; } return r; }
VF uint16x4_t vuzp2_u16(uint16x4_t a, uint16x4_t b) { uint16x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i+1]; r[i+2] = b[2*i+1]; } return r; }
VF uint16x4x2_t vtrn_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4x2_t){ { vtrn1_u16(a, b), vtrn2_u16(a, b) } }; }
VF uint16x4x2_t vzip_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4x2_t){ { vzip1_u16(a, b), vzip2_u16(a, b) } }; }
VF uint16x4x2_t vuzp_u16(uint16x4_t a, uint16x4_t b) { return (uint16x4x2_t){ { vuzp1_u16(a, b), vuzp2_u16(a, b) } }; }
VF uint16x4_t vrev32_u16(uint16x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
VF uint16x4_t vrev64_u16(uint16x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 3]; return r; }
#define vget_lane_u16(a, l) ((a)[l])
#define vset_lane_u16(x, a, l) __extension__({ uint16x4_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_u16(a, l) vdup_n_u16((a)[l])
#define vdup_laneq_u16(a, l) vdup_n_u16((a)[l])
#define vmul_lane_u16(b, c, l) vmul_u16((b), vdup_n_u16((c)[l]))
#define vmul_laneq_u16(b, c, l) vmul_u16((b), vdup_n_u16((c)[l]))
#define vmla_lane_u16(a, b, c, l) vmla_u16((a), (b), vdup_n_u16((c)[l]))
#define vmla_laneq_u16(a, b, c, l) vmla_u16((a), (b), vdup_n_u16((c)[l]))
#define vmls_lane_u16(a, b, c, l) vmls_u16((a), (b), vdup_n_u16((c)[l]))
#define vmls_laneq_u16(a, b, c, l) vmls_u16((a), (b), vdup_n_u16((c)[l]))
VF uint16x8_t vld1q_u16(const uint16_t *p) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = p[i]; return r; }
VF void vst1q_u16(uint16_t *p, uint16x8_t a) { for (int i = 0; i < 8; i++) p[i] = a[i]; }
VF uint16x8_t vld1q_dup_u16(const uint16_t *p) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = *p; return r; }
#define vld1q_lane_u16(p, v, l) __extension__({ uint16x8_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_u16(p, v, l) (*(p) = (v)[l])
VF uint16x8x2_t vld2q_u16(const uint16_t *p) { uint16x8x2_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_u16(uint16_t *p, uint16x8x2_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint16x8x2_t vld1q_u16_x2(const uint16_t *p) { uint16x8x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_u16(p + k*8); return r; }
VF uint16x8x3_t vld3q_u16(const uint16_t *p) { uint16x8x3_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_u16(uint16_t *p, uint16x8x3_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint16x8x3_t vld1q_u16_x3(const uint16_t *p) { uint16x8x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_u16(p + k*8); return r; }
VF uint16x8x4_t vld4q_u16(const uint16_t *p) { uint16x8x4_t r; for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_u16(uint16_t *p, uint16x8x4_t a) { for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint16x8x4_t vld1q_u16_x4(const uint16_t *p) { uint16x8x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_u16(p + k*8); return r; }
VF uint16x8_t vdupq_n_u16(uint16_t x) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF uint16x8_t vmovq_n_u16(uint16_t x) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
VF uint16x8_t vaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((unsigned)a[i] + (unsigned)b[i]); return r; }
VF uint16x8_t vaddq_n_u16(uint16x8_t a, uint16_t x) { return vaddq_u16(a, vdupq_n_u16(x)); }
VF uint16x8_t vsubq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((unsigned)a[i] - (unsigned)b[i]); return r; }
VF uint16x8_t vsubq_n_u16(uint16x8_t a, uint16_t x) { return vsubq_u16(a, vdupq_n_u16(x)); }
VF uint16x8_t vmulq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((unsigned)a[i] * (unsigned)b[i]); return r; }
VF uint16x8_t vmulq_n_u16(uint16x8_t a, uint16_t x) { return vmulq_u16(a, vdupq_n_u16(x)); }
VF uint16x8_t vmlaq_u16(uint16x8_t a, uint16x8_t b, uint16x8_t c) { return vaddq_u16(a, vmulq_u16(b, c)); }
VF uint16x8_t vmlsq_u16(uint16x8_t a, uint16x8_t b, uint16x8_t c) { return vsubq_u16(a, vmulq_u16(b, c)); }
VF uint16x8_t vmlaq_n_u16(uint16x8_t a, uint16x8_t b, uint16_t c) { return vmlaq_u16(a, b, vdupq_n_u16(c)); }
VF uint16x8_t vmlsq_n_u16(uint16x8_t a, uint16x8_t b, uint16_t c) { return vmlsq_u16(a, b, vdupq_n_u16(c)); }
VF uint16x8_t vmaxq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF uint16_t vmaxvq_u16(uint16x8_t a) { uint16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] > r ? a[i] : r; return r; }
VF uint16x8_t vminq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF uint16_t vminvq_u16(uint16x8_t a) { uint16_t r = a[0]; for (int i = 1; i < 8; i++) r = a[i] < r ? a[i] : r; return r; }
VF uint16x8_t vandq_u16(uint16x8_t a, uint16x8_t b) { return a & b; }
VF uint16x8_t vorrq_u16(uint16x8_t a, uint16x8_t b) { return a | b; }
VF uint16x8_t veorq_u16(uint16x8_t a, uint16x8_t b) { return a ^ b; }
VF uint16x8_t vbicq_u16(uint16x8_t a, uint16x8_t b) { return a & ~b; }
VF uint16x8_t vmvnq_u16(uint16x8_t a) { return ~a; }
#define vshlq_n_u16(a, k) vf_shlq_u16((a), (k))
VF uint16x8_t vf_shlq_u16(uint16x8_t a, int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint16_t)a[i] << k); return r; }
#define vshrq_n_u16(a, k) vf_shrq_u16((a), (k))
VF uint16x8_t vf_shrq_u16(uint16x8_t a, int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = k >= 16 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_u16(a, k) vf_rshrq_u16((a), (k))
VF uint16x8_t vf_rshrq_u16(uint16x8_t a, int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint16x8_t vqaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint16_t)(t < 0 ? 0 : t > (((__int128)1 << 16) - 1) ? (((__int128)1 << 16) - 1) : t); } return r; }
VF uint16x8_t vqsubq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint16_t)(t < 0 ? 0 : t > (((__int128)1 << 16) - 1) ? (((__int128)1 << 16) - 1) : t); } return r; }
VF uint16x8_t vhaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF uint16x8_t vrhaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF uint16_t vaddvq_u16(uint16x8_t a) { uint16_t r = 0; for (int i = 0; i < 8; i++) r = (uint16_t)((unsigned)r + (unsigned)a[i]); return r; }
VF uint16x8_t vpaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = (uint16_t)((unsigned)a[2*i] + (unsigned)a[2*i+1]); r[i + 4] = (uint16_t)((unsigned)b[2*i] + (unsigned)b[2*i+1]); } return r; }
VF uint16x8_t vceqq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] == b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcgtq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcgeq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] >= b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcltq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vcleq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i] <= b[i] ? (uint16_t)-1 : 0; return r; }
VF uint16x8_t vbslq_u16(uint16x8_t m, uint16x8_t a, uint16x8_t b) { return (uint16x8_t)((m & (uint16x8_t)a) | (~m & (uint16x8_t)b)); }
#define vextq_u16(a, b, k) vf_extq_u16((a), (b), (k))
VF uint16x8_t vf_extq_u16(uint16x8_t a, uint16x8_t b, int k) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = i + k < 8 ? a[(i + k) % 8] : b[(i + k) % 8]; return r; }
VF uint16x8_t vtrn1q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF uint16x8_t vtrn2q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF uint16x8_t vzip1q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF uint16x8_t vzip2q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[2*i] = a[i+4]; r[2*i+1] = b[i+4]; } return r; }
VF uint16x8_t vuzp1q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i]; r[i+4] = b[2*i]; } return r; }
VF uint16x8_t vuzp2q_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[2*i+1]; r[i+4] = b[2*i+1]; } return r; }
VF uint16x8x2_t vtrnq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8x2_t){ { vtrn1q_u16(a, b), vtrn2q_u16(a, b) } }; }
VF uint16x8x2_t vzipq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8x2_t){ { vzip1q_u16(a, b), vzip2q_u16(a, b) } }; }
VF uint16x8x2_t vuzpq_u16(uint16x8_t a, uint16x8_t b) { return (uint16x8x2_t){ { vuzp1q_u16(a, b), vuzp2q_u16(a, b) } }; }
VF uint16x8_t vrev32q_u16(uint16x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 1]; return r; }
VF uint16x8_t vrev64q_u16(uint16x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i ^ 3]; return r; }
#define vgetq_lane_u16(a, l) ((a)[l])
#define vsetq_lane_u16(x, a, l) __extension__({ uint16x8_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_u16(a, l) vdupq_n_u16((a)[l])
#define vdupq_laneq_u16(a, l) vdupq_n_u16((a)[l])
#define vmulq_lane_u16(b, c, l) vmulq_u16((b), vdupq_n_u16((c)[l]))
#define vmulq_laneq_u16(b, c, l) vmulq_u16((b), vdupq_n_u16((c)[l]))
#define vmlaq_lane_u16(a, b, c, l) vmlaq_u16((a), (b), vdupq_n_u16((c)[l]))
#define vmlaq_laneq_u16(a, b, c, l) vmlaq_u16((a), (b), vdupq_n_u16((c)[l]))
#define vmlsq_lane_u16(a, b, c, l) vmlsq_u16((a), (b), vdupq_n_u16((c)[l]))
#define vmlsq_laneq_u16(a, b, c, l) vmlsq_u16((a), (b), vdupq_n_u16((c)[l]))
VF uint16x8_t vcombine_u16(uint16x4_t a, uint16x4_t b) { uint16x8_t r; for (int i = 0; i < 4; i++) { r[i] = a[i]; r[i+4] = b[i]; } return r; }
VF uint16x4_t vget_low_u16(uint16x8_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i]; return r; }
VF uint16x4_t vget_high_u16(uint16x8_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i+4]; return r; }
VF uint16x4_t vcreate_u16(uint64_t x) { uint16x4_t r; memcpy(&r, &x, 8); return r; }
VF int32x2_t vld1_s32(const int32_t *p) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = p[i]; return r; }
VF void vst1_s32(int32_t *p, int32x2_t a) { for (int i = 0; i < 2; i++) p[i] = a[i]; }
VF int32x2_t vld1_dup_s32(const int32_t *p) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
#define vld1_lane_s32(p, v, l) __extension__({ int32x2_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_s32(p, v, l) (*(p) = (v)[l])
VF int32x2x2_t vld2_s32(const int32_t *p) { int32x2x2_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_s32(int32_t *p, int32x2x2_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int32x2x2_t vld1_s32_x2(const int32_t *p) { int32x2x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_s32(p + k*2); return r; }
VF int32x2x3_t vld3_s32(const int32_t *p) { int32x2x3_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_s32(int32_t *p, int32x2x3_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int32x2x3_t vld1_s32_x3(const int32_t *p) { int32x2x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_s32(p + k*2); return r; }
VF int32x2x4_t vld4_s32(const int32_t *p) { int32x2x4_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_s32(int32_t *p, int32x2x4_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int32x2x4_t vld1_s32_x4(const int32_t *p) { int32x2x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_s32(p + k*2); return r; }
VF int32x2_t vdup_n_s32(int32_t x) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF int32x2_t vmov_n_s32(int32_t x) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF int32x2_t vadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint32_t)a[i] + (uint32_t)b[i]); return r; }
VF int32x2_t vadd_n_s32(int32x2_t a, int32_t x) { return vadd_s32(a, vdup_n_s32(x)); }
VF int32x2_t vsub_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VF int32x2_t vsub_n_s32(int32x2_t a, int32_t x) { return vsub_s32(a, vdup_n_s32(x)); }
VF int32x2_t vmul_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint32_t)a[i] * (uint32_t)b[i]); return r; }
VF int32x2_t vmul_n_s32(int32x2_t a, int32_t x) { return vmul_s32(a, vdup_n_s32(x)); }
VF int32x2_t vmla_s32(int32x2_t a, int32x2_t b, int32x2_t c) { return vadd_s32(a, vmul_s32(b, c)); }
VF int32x2_t vmls_s32(int32x2_t a, int32x2_t b, int32x2_t c) { return vsub_s32(a, vmul_s32(b, c)); }
VF int32x2_t vmla_n_s32(int32x2_t a, int32x2_t b, int32_t c) { return vmla_s32(a, b, vdup_n_s32(c)); }
VF int32x2_t vmls_n_s32(int32x2_t a, int32x2_t b, int32_t c) { return vmls_s32(a, b, vdup_n_s32(c)); }
VF int32x2_t vneg_s32(int32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(0 - (uint32_t)a[i]); return r; }
VF int32x2_t vabs_s32(int32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < 0 ? (int32_t)(0 - (uint32_t)a[i]) : a[i]; return r; }
VF int32x2_t vmax_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF int32_t vmaxv_s32(int32x2_t a) { int32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] > r ? a[i] : r; return r; }
VF int32x2_t vmin_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF int32_t vminv_s32(int32x2_t a) { int32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] < r ? a[i] : r; return r; }
VF int32x2_t vand_s32(int32x2_t a, int32x2_t b) { return a & b; }
VF int32x2_t vorr_s32(int32x2_t a, int32x2_t b) { return a | b; }
VF int32x2_t veor_s32(int32x2_t a, int32x2_t b) { return a ^ b; }
VF int32x2_t vbic_s32(int32x2_t a, int32x2_t b) { return a & ~b; }
VF int32x2_t vmvn_s32(int32x2_t a) { return ~a; }
#define vshl_n_s32(a, k) vf_shl_s32((a), (k))
VF int32x2_t vf_shl_s32(int32x2_t a, int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)((uint32_t)a[i] << k); return r; }
#define vshr_n_s32(a, k) vf_shr_s32((a), (k))
VF int32x2_t vf_shr_s32(int32x2_t a, int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = k >= 32 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_s32(a, k) vf_rshr_s32((a), (k))
VF int32x2_t vf_rshr_s32(int32x2_t a, int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int32x2_t vqadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int32_t)(t < -((__int128)1 << 31) ? -((__int128)1 << 31) : t > (((__int128)1 << 31) - 1) ? (((__int128)1 << 31) - 1) : t); } return r; }
VF int32x2_t vqsub_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int32_t)(t < -((__int128)1 << 31) ? -((__int128)1 << 31) : t > (((__int128)1 << 31) - 1) ? (((__int128)1 << 31) - 1) : t); } return r; }
VF int32x2_t vhadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF int32x2_t vrhadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF int32_t vaddv_s32(int32x2_t a) { int32_t r = 0; for (int i = 0; i < 2; i++) r = (int32_t)((uint32_t)r + (uint32_t)a[i]); return r; }
VF int32x2_t vpadd_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = (int32_t)((uint32_t)a[2*i] + (uint32_t)a[2*i+1]); r[i + 1] = (int32_t)((uint32_t)b[2*i] + (uint32_t)b[2*i+1]); } return r; }
VF uint32x2_t vceq_s32(int32x2_t a, int32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] == b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcgt_s32(int32x2_t a, int32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcge_s32(int32x2_t a, int32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] >= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vclt_s32(int32x2_t a, int32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcle_s32(int32x2_t a, int32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] <= b[i] ? (uint32_t)-1 : 0; return r; }
VF int32x2_t vbsl_s32(uint32x2_t m, int32x2_t a, int32x2_t b) { return (int32x2_t)((m & (uint32x2_t)a) | (~m & (uint32x2_t)b)); }
#define vext_s32(a, b, k) vf_ext_s32((a), (b), (k))
VF int32x2_t vf_ext_s32(int32x2_t a, int32x2_t b, int k) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[(i + k) % 2] : b[(i + k) % 2]; return r; }
VF int32x2_t vtrn1_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF int32x2_t vtrn2_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF int32x2_t vzip1_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF int32x2_t vzip2_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i+1]; r[2*i+1] = b[i+1]; } return r; }
VF int32x2_t vuzp1_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i]; r[i+1] = b[2*i]; } return r; }
VF int32x2_t vuzp2_s32(int32x2_t a, int32x2_t b) { int32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i+1]; r[i+1] = b[2*i+1]; } return r; }
VF int32x2x2_t vtrn_s32(int32x2_t a, int32x2_t b) { return (int32x2x2_t){ { vtrn1_s32(a, b), vtrn2_s32(a, b) } }; }
VF int32x2x2_t vzip_s32(int32x2_t a, int32x2_t b) { return (int32x2x2_t){ { vzip1_s32(a, b), vzip2_s32(a, b) } }; }
VF int32x2x2_t vuzp_s32(int32x2_t a, int32x2_t b) { return (int32x2x2_t){ { vuzp1_s32(a, b), vuzp2_s32(a, b) } }; }
VF int32x2_t vrev64_s32(int32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i ^ 1]; return r; }
#define vget_lane_s32(a, l) ((a)[l])
#define vset_lane_s32(x, a, l) __extension__({ int32x2_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_s32(a, l) vdup_n_s32((a)[l])
#define vdup_laneq_s32(a, l) vdup_n_s32((a)[l])
#define vmul_lane_s32(b, c, l) vmul_s32((b), vdup_n_s32((c)[l]))
#define vmul_laneq_s32(b, c, l) vmul_s32((b), vdup_n_s32((c)[l]))
#define vmla_lane_s32(a, b, c, l) vmla_s32((a), (b), vdup_n_s32((c)[l]))
#define vmla_laneq_s32(a, b, c, l) vmla_s32((a), (b), vdup_n_s32((c)[l]))
#define vmls_lane_s32(a, b, c, l) vmls_s32((a), (b), vdup_n_s32((c)[l]))
#define vmls_laneq_s32(a, b, c, l) vmls_s32((a), (b), vdup_n_s32((c)[l]))
VF int32x4_t vld1q_s32(const int32_t *p) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = p[i]; return r; }
VF void vst1q_s32(int32_t *p, int32x4_t a) { for (int i = 0; i < 4; i++) p[i] = a[i]; }
VF int32x4_t vld1q_dup_s32(const int32_t *p) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
#define vld1q_lane_s32(p, v, l) __extension__({ int32x4_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_s32(p, v, l) (*(p) = (v)[l])
VF int32x4x2_t vld2q_s32(const int32_t *p) { int32x4x2_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_s32(int32_t *p, int32x4x2_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int32x4x2_t vld1q_s32_x2(const int32_t *p) { int32x4x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_s32(p + k*4); return r; }
VF int32x4x3_t vld3q_s32(const int32_t *p) { int32x4x3_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_s32(int32_t *p, int32x4x3_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int32x4x3_t vld1q_s32_x3(const int32_t *p) { int32x4x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_s32(p + k*4); return r; }
VF int32x4x4_t vld4q_s32(const int32_t *p) { int32x4x4_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_s32(int32_t *p, int32x4x4_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int32x4x4_t vld1q_s32_x4(const int32_t *p) { int32x4x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_s32(p + k*4); return r; }
VF int32x4_t vdupq_n_s32(int32_t x) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF int32x4_t vmovq_n_s32(int32_t x) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint32_t)a[i] + (uint32_t)b[i]); return r; }
VF int32x4_t vaddq_n_s32(int32x4_t a, int32_t x) { return vaddq_s32(a, vdupq_n_s32(x)); }
VF int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VF int32x4_t vsubq_n_s32(int32x4_t a, int32_t x) { return vsubq_s32(a, vdupq_n_s32(x)); }
VF int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint32_t)a[i] * (uint32_t)b[i]); return r; }
VF int32x4_t vmulq_n_s32(int32x4_t a, int32_t x) { return vmulq_s32(a, vdupq_n_s32(x)); }
VF int32x4_t vmlaq_s32(int32x4_t a, int32x4_t b, int32x4_t c) { return vaddq_s32(a, vmulq_s32(b, c)); }
VF int32x4_t vmlsq_s32(int32x4_t a, int32x4_t b, int32x4_t c) { return vsubq_s32(a, vmulq_s32(b, c)); }
VF int32x4_t vmlaq_n_s32(int32x4_t a, int32x4_t b, int32_t c) { return vmlaq_s32(a, b, vdupq_n_s32(c)); }
VF int32x4_t vmlsq_n_s32(int32x4_t a, int32x4_t b, int32_t c) { return vmlsq_s32(a, b, vdupq_n_s32(c)); }
VF int32x4_t vnegq_s32(int32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(0 - (uint32_t)a[i]); return r; }
VF int32x4_t vabsq_s32(int32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < 0 ? (int32_t)(0 - (uint32_t)a[i]) : a[i]; return r; }
VF int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF int32_t vmaxvq_s32(int32x4_t a) { int32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
VF int32x4_t vminq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF int32_t vminvq_s32(int32x4_t a) { int32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
VF int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { return a & b; }
VF int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { return a | b; }
VF int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
VF int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) { return a & ~b; }
VF int32x4_t vmvnq_s32(int32x4_t a) { return ~a; }
#define vshlq_n_s32(a, k) vf_shlq_s32((a), (k))
VF int32x4_t vf_shlq_s32(int32x4_t a, int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint32_t)a[i] << k); return r; }
#define vshrq_n_s32(a, k) vf_shrq_s32((a), (k))
VF int32x4_t vf_shrq_s32(int32x4_t a, int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = k >= 32 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_s32(a, k) vf_rshrq_s32((a), (k))
VF int32x4_t vf_rshrq_s32(int32x4_t a, int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int32x4_t vqaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int32_t)(t < -((__int128)1 << 31) ? -((__int128)1 << 31) : t > (((__int128)1 << 31) - 1) ? (((__int128)1 << 31) - 1) : t); } return r; }
VF int32x4_t vqsubq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int32_t)(t < -((__int128)1 << 31) ? -((__int128)1 << 31) : t > (((__int128)1 << 31) - 1) ? (((__int128)1 << 31) - 1) : t); } return r; }
VF int32x4_t vhaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF int32x4_t vrhaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF int32_t vaddvq_s32(int32x4_t a) { int32_t r = 0; for (int i = 0; i < 4; i++) r = (int32_t)((uint32_t)r + (uint32_t)a[i]); return r; }
VF int32x4_t vpaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = (int32_t)((uint32_t)a[2*i] + (uint32_t)a[2*i+1]); r[i + 2] = (int32_t)((uint32_t)b[2*i] + (uint32_t)b[2*i+1]); } return r; }
VF uint32x4_t vceqq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] == b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcgtq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcgeq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] >= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcltq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcleq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] <= b[i] ? (uint32_t)-1 : 0; return r; }
VF int32x4_t vbslq_s32(uint32x4_t m, int32x4_t a, int32x4_t b) { return (int32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
#define vextq_s32(a, b, k) vf_extq_s32((a), (b), (k))
VF int32x4_t vf_extq_s32(int32x4_t a, int32x4_t b, int k) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[(i + k) % 4] : b[(i + k) % 4]; return r; }
VF int32x4_t vtrn1q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF int32x4_t vtrn2q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF int32x4_t vzip1q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF int32x4_t vzip2q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i+2]; r[2*i+1] = b[i+2]; } return r; }
VF int32x4_t vuzp1q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i]; r[i+2] = b[2*i]; } return r; }
VF int32x4_t vuzp2q_s32(int32x4_t a, int32x4_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i+1]; r[i+2] = b[2*i+1]; } return r; }
VF int32x4x2_t vtrnq_s32(int32x4_t a, int32x4_t b) { return (int32x4x2_t){ { vtrn1q_s32(a, b), vtrn2q_s32(a, b) } }; }
VF int32x4x2_t vzipq_s32(int32x4_t a, int32x4_t b) { return (int32x4x2_t){ { vzip1q_s32(a, b), vzip2q_s32(a, b) } }; }
VF int32x4x2_t vuzpq_s32(int32x4_t a, int32x4_t b) { return (int32x4x2_t){ { vuzp1q_s32(a, b), vuzp2q_s32(a, b) } }; }
VF int32x4_t vrev64q_s32(int32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
#define vgetq_lane_s32(a, l) ((a)[l])
#define vsetq_lane_s32(x, a, l) __extension__({ int32x4_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_s32(a, l) vdupq_n_s32((a)[l])
#define vdupq_laneq_s32(a, l) vdupq_n_s32((a)[l])
#define vmulq_lane_s32(b, c, l) vmulq_s32((b), vdupq_n_s32((c)[l]))
#define vmulq_laneq_s32(b, c, l) vmulq_s32((b), vdupq_n_s32((c)[l]))
#define vmlaq_lane_s32(a, b, c, l) vmlaq_s32((a), (b), vdupq_n_s32((c)[l]))
#define vmlaq_laneq_s32(a, b, c, l) vmlaq_s32((a), (b), vdupq_n_s32((c)[l]))
#define vmlsq_lane_s32(a, b, c, l) vmlsq_s32((a), (b), vdupq_n_s32((c)[l]))
#define vmlsq_laneq_s32(a, b, c, l) vmlsq_s32((a), (b), vdupq_n_s32((c)[l]))
VF int32x4_t vcombine_s32(int32x2_t a, int32x2_t b) { int32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[i]; r[i+2] = b[i]; } return r; }
VF int32x2_t vget_low_s32(int32x4_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i]; return r; }
VF int32x2_t vget_high_s32(int32x4_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i+2]; return r; }
VF int32x2_t vcreate_s32(uint64_t x) { int32x2_t r; memcpy(&r, &x, 8); return r; }
VF uint32x2_t vld1_u32(const uint32_t *p) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = p[i]; return r; }
VF void vst1_u32(uint32_t *p, uint32x2_t a) { for (int i = 0; i < 2; i++) p[i] = a[i]; }
VF uint32x2_t vld1_dup_u32(const uint32_t *p) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
#define vld1_lane_u32(p, v, l) __extension__({ uint32x2_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_u32(p, v, l) (*(p) = (v)[l])
VF uint32x2x2_t vld2_u32(const uint32_t *p) { uint32x2x2_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_u32(uint32_t *p, uint32x2x2_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint32x2x2_t vld1_u32_x2(const uint32_t *p) { uint32x2x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_u32(p + k*2); return r; }
VF uint32x2x3_t vld3_u32(const uint32_t *p) { uint32x2x3_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_u32(uint32_t *p, uint32x2x3_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint32x2x3_t vld1_u32_x3(const uint32_t *p) { uint32x2x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_u32(p + k*2); return r; }
VF uint32x2x4_t vld4_u32(const uint32_t *p) { uint32x2x4_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_u32(uint32_t *p, uint32x2x4_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint32x2x4_t vld1_u32_x4(const uint32_t *p) { uint32x2x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_u32(p + k*2); return r; }
VF uint32x2_t vdup_n_u32(uint32_t x) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF uint32x2_t vmov_n_u32(uint32_t x) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF uint32x2_t vadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint32_t)a[i] + (uint32_t)b[i]); return r; }
VF uint32x2_t vadd_n_u32(uint32x2_t a, uint32_t x) { return vadd_u32(a, vdup_n_u32(x)); }
VF uint32x2_t vsub_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VF uint32x2_t vsub_n_u32(uint32x2_t a, uint32_t x) { return vsub_u32(a, vdup_n_u32(x)); }
VF uint32x2_t vmul_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint32_t)a[i] * (uint32_t)b[i]); return r; }
VF uint32x2_t vmul_n_u32(uint32x2_t a, uint32_t x) { return vmul_u32(a, vdup_n_u32(x)); }
VF uint32x2_t vmla_u32(uint32x2_t a, uint32x2_t b, uint32x2_t c) { return vadd_u32(a, vmul_u32(b, c)); }
VF uint32x2_t vmls_u32(uint32x2_t a, uint32x2_t b, uint32x2_t c) { return vsub_u32(a, vmul_u32(b, c)); }
VF uint32x2_t vmla_n_u32(uint32x2_t a, uint32x2_t b, uint32_t c) { return vmla_u32(a, b, vdup_n_u32(c)); }
VF uint32x2_t vmls_n_u32(uint32x2_t a, uint32x2_t b, uint32_t c) { return vmls_u32(a, b, vdup_n_u32(c)); }
VF uint32x2_t vmax_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF uint32_t vmaxv_u32(uint32x2_t a) { uint32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] > r ? a[i] : r; return r; }
VF uint32x2_t vmin_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF uint32_t vminv_u32(uint32x2_t a) { uint32_t r = a[0]; for (int i = 1; i < 2; i++) r = a[i] < r ? a[i] : r; return r; }
VF uint32x2_t vand_u32(uint32x2_t a, uint32x2_t b) { return a & b; }
VF uint32x2_t vorr_u32(uint32x2_t a, uint32x2_t b) { return a | b; }
VF uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b) { return a ^ b; }
VF uint32x2_t vbic_u32(uint32x2_t a, uint32x2_t b) { return a & ~b; }
VF uint32x2_t vmvn_u32(uint32x2_t a) { return ~a; }
#define vshl_n_u32(a, k) vf_shl_u32((a), (k))
VF uint32x2_t vf_shl_u32(uint32x2_t a, int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)((uint32_t)a[i] << k); return r; }
#define vshr_n_u32(a, k) vf_shr_u32((a), (k))
VF uint32x2_t vf_shr_u32(uint32x2_t a, int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = k >= 32 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_u32(a, k) vf_rshr_u32((a), (k))
VF uint32x2_t vf_rshr_u32(uint32x2_t a, int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint32x2_t vqadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint32_t)(t < 0 ? 0 : t > (((__int128)1 << 32) - 1) ? (((__int128)1 << 32) - 1) : t); } return r; }
VF uint32x2_t vqsub_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint32_t)(t < 0 ? 0 : t > (((__int128)1 << 32) - 1) ? (((__int128)1 << 32) - 1) : t); } return r; }
VF uint32x2_t vhadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF uint32x2_t vrhadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF uint32_t vaddv_u32(uint32x2_t a) { uint32_t r = 0; for (int i = 0; i < 2; i++) r = (uint32_t)((uint32_t)r + (uint32_t)a[i]); return r; }
VF uint32x2_t vpadd_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = (uint32_t)((uint32_t)a[2*i] + (uint32_t)a[2*i+1]); r[i + 1] = (uint32_t)((uint32_t)b[2*i] + (uint32_t)b[2*i+1]); } return r; }
VF uint32x2_t vceq_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] == b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcgt_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcge_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] >= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vclt_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcle_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] <= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vbsl_u32(uint32x2_t m, uint32x2_t a, uint32x2_t b) { return (uint32x2_t)((m & (uint32x2_t)a) | (~m & (uint32x2_t)b)); }
#define vext_u32(a, b, k) vf_ext_u32((a), (b), (k))
VF uint32x2_t vf_ext_u32(uint32x2_t a, uint32x2_t b, int k) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[(i + k) % 2] : b[(i + k) % 2]; return r; }
VF uint32x2_t vtrn1_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF uint32x2_t vtrn2_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF uint32x2_t vzip1_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF uint32x2_t vzip2_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i+1]; r[2*i+1] = b[i+1]; } return r; }
VF uint32x2_t vuzp1_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i]; r[i+1] = b[2*i]; } return r; }
VF uint32x2_t vuzp2_u32(uint32x2_t a, uint32x2_t b) { uint32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i+1]; r[i+1] = b[2*i+1]; } return r; }
VF uint32x2x2_t vtrn_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2x2_t){ { vtrn1_u32(a, b), vtrn2_u32(a, b) } }; }
VF uint32x2x2_t vzip_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2x2_t){ { vzip1_u32(a, b), vzip2_u32(a, b) } }; }
VF uint32x2x2_t vuzp_u32(uint32x2_t a, uint32x2_t b) { return (uint32x2x2_t){ { vuzp1_u32(a, b), vuzp2_u32(a, b) } }; }
VF uint32x2_t vrev64_u32(uint32x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i ^ 1]; return r; }
#define vget_lane_u32(a, l) ((a)[l])
#define vset_lane_u32(x, a, l) __extension__({ uint32x2_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_u32(a, l) vdup_n_u32((a)[l])
#define vdup_laneq_u32(a, l) vdup_n_u32((a)[l])
#define vmul_lane_u32(b, c, l) vmul_u32((b), vdup_n_u32((c)[l]))
#define vmul_laneq_u32(b, c, l) vmul_u32((b), vdup_n_u32((c)[l]))
#define vmla_lane_u32(a, b, c, l) vmla_u32((a), (b), vdup_n_u32((c)[l]))
#define vmla_laneq_u32(a, b, c, l) vmla_u32((a), (b), vdup_n_u32((c)[l]))
#define vmls_lane_u32(a, b, c, l) vmls_u32((a), (b), vdup_n_u32((c)[l]))
#define vmls_laneq_u32(a, b, c, l) vmls_u32((a), (b), vdup_n_u32((c)[l]))
VF uint32x4_t vld1q_u32(const uint32_t *p) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = p[i]; return r; }
VF void vst1q_u32(uint32_t *p, uint32x4_t a) { for (int i = 0; i < 4; i++) p[i] = a[i]; }
VF uint32x4_t vld1q_dup_u32(const uint32_t *p) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
#define vld1q_lane_u32(p, v, l) __extension__({ uint32x4_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_u32(p, v, l) (*(p) = (v)[l])
VF uint32x4x2_t vld2q_u32(const uint32_t *p) { uint32x4x2_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_u32(uint32_t *p, uint32x4x2_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint32x4x2_t vld1q_u32_x2(const uint32_t *p) { uint32x4x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_u32(p + k*4); return r; }
VF uint32x4x3_t vld3q_u32(const uint32_t *p) { uint32x4x3_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_u32(uint32_t *p, uint32x4x3_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint32x4x3_t vld1q_u32_x3(const uint32_t *p) { uint32x4x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_u32(p + k*4); return r; }
VF uint32x4x4_t vld4q_u32(const uint32_t *p) { uint32x4x4_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_u32(uint32_t *p, uint32x4x4_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint32x4x4_t vld1q_u32_x4(const uint32_t *p) { uint32x4x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_u32(p + k*4); return r; }
VF uint32x4_t vdupq_n_u32(uint32_t x) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF uint32x4_t vmovq_n_u32(uint32_t x) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint32_t)a[i] + (uint32_t)b[i]); return r; }
VF uint32x4_t vaddq_n_u32(uint32x4_t a, uint32_t x) { return vaddq_u32(a, vdupq_n_u32(x)); }
VF uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VF uint32x4_t vsubq_n_u32(uint32x4_t a, uint32_t x) { return vsubq_u32(a, vdupq_n_u32(x)); }
VF uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint32_t)a[i] * (uint32_t)b[i]); return r; }
VF uint32x4_t vmulq_n_u32(uint32x4_t a, uint32_t x) { return vmulq_u32(a, vdupq_n_u32(x)); }
VF uint32x4_t vmlaq_u32(uint32x4_t a, uint32x4_t b, uint32x4_t c) { return vaddq_u32(a, vmulq_u32(b, c)); }
VF uint32x4_t vmlsq_u32(uint32x4_t a, uint32x4_t b, uint32x4_t c) { return vsubq_u32(a, vmulq_u32(b, c)); }
VF uint32x4_t vmlaq_n_u32(uint32x4_t a, uint32x4_t b, uint32_t c) { return vmlaq_u32(a, b, vdupq_n_u32(c)); }
VF uint32x4_t vmlsq_n_u32(uint32x4_t a, uint32x4_t b, uint32_t c) { return vmlsq_u32(a, b, vdupq_n_u32(c)); }
VF uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
VF uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF uint32_t vminvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
VF uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
VF uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
VF uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
VF uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
VF uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
#define vshlq_n_u32(a, k) vf_shlq_u32((a), (k))
VF uint32x4_t vf_shlq_u32(uint32x4_t a, int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint32_t)a[i] << k); return r; }
#define vshrq_n_u32(a, k) vf_shrq_u32((a), (k))
VF uint32x4_t vf_shrq_u32(uint32x4_t a, int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = k >= 32 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_u32(a, k) vf_rshrq_u32((a), (k))
VF uint32x4_t vf_rshrq_u32(uint32x4_t a, int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint32x4_t vqaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint32_t)(t < 0 ? 0 : t > (((__int128)1 << 32) - 1) ? (((__int128)1 << 32) - 1) : t); } return r; }
VF uint32x4_t vqsubq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint32_t)(t < 0 ? 0 : t > (((__int128)1 << 32) - 1) ? (((__int128)1 << 32) - 1) : t); } return r; }
VF uint32x4_t vhaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i]) >> 1); return r; }
VF uint32x4_t vrhaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)(((int64_t)a[i] + b[i] + 1) >> 1); return r; }
VF uint32_t vaddvq_u32(uint32x4_t a) { uint32_t r = 0; for (int i = 0; i < 4; i++) r = (uint32_t)((uint32_t)r + (uint32_t)a[i]); return r; }
VF uint32x4_t vpaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = (uint32_t)((uint32_t)a[2*i] + (uint32_t)a[2*i+1]); r[i + 2] = (uint32_t)((uint32_t)b[2*i] + (uint32_t)b[2*i+1]); } return r; }
VF uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] == b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcgeq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] >= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcleq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] <= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { return (uint32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
#define vextq_u32(a, b, k) vf_extq_u32((a), (b), (k))
VF uint32x4_t vf_extq_u32(uint32x4_t a, uint32x4_t b, int k) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[(i + k) % 4] : b[(i + k) % 4]; return r; }
VF uint32x4_t vtrn1q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF uint32x4_t vtrn2q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF uint32x4_t vzip1q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF uint32x4_t vzip2q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i+2]; r[2*i+1] = b[i+2]; } return r; }
VF uint32x4_t vuzp1q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i]; r[i+2] = b[2*i]; } return r; }
VF uint32x4_t vuzp2q_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i+1]; r[i+2] = b[2*i+1]; } return r; }
VF uint32x4x2_t vtrnq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4x2_t){ { vtrn1q_u32(a, b), vtrn2q_u32(a, b) } }; }
VF uint32x4x2_t vzipq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4x2_t){ { vzip1q_u32(a, b), vzip2q_u32(a, b) } }; }
VF uint32x4x2_t vuzpq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4x2_t){ { vuzp1q_u32(a, b), vuzp2q_u32(a, b) } }; }
VF uint32x4_t vrev64q_u32(uint32x4_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
#define vgetq_lane_u32(a, l) ((a)[l])
#define vsetq_lane_u32(x, a, l) __extension__({ uint32x4_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_u32(a, l) vdupq_n_u32((a)[l])
#define vdupq_laneq_u32(a, l) vdupq_n_u32((a)[l])
#define vmulq_lane_u32(b, c, l) vmulq_u32((b), vdupq_n_u32((c)[l]))
#define vmulq_laneq_u32(b, c, l) vmulq_u32((b), vdupq_n_u32((c)[l]))
#define vmlaq_lane_u32(a, b, c, l) vmlaq_u32((a), (b), vdupq_n_u32((c)[l]))
#define vmlaq_laneq_u32(a, b, c, l) vmlaq_u32((a), (b), vdupq_n_u32((c)[l]))
#define vmlsq_lane_u32(a, b, c, l) vmlsq_u32((a), (b), vdupq_n_u32((c)[l]))
#define vmlsq_laneq_u32(a, b, c, l) vmlsq_u32((a), (b), vdupq_n_u32((c)[l]))
VF uint32x4_t vcombine_u32(uint32x2_t a, uint32x2_t b) { uint32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[i]; r[i+2] = b[i]; } return r; }
VF uint32x2_t vget_low_u32(uint32x4_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i]; return r; }
VF uint32x2_t vget_high_u32(uint32x4_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i+2]; return r; }
VF uint32x2_t vcreate_u32(uint64_t x) { uint32x2_t r; memcpy(&r, &x, 8); return r; }
VF int64x1_t vld1_s64(const int64_t *p) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = p[i]; return r; }
VF void vst1_s64(int64_t *p, int64x1_t a) { for (int i = 0; i < 1; i++) p[i] = a[i]; }
VF int64x1_t vld1_dup_s64(const int64_t *p) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = *p; return r; }
#define vld1_lane_s64(p, v, l) __extension__({ int64x1_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_s64(p, v, l) (*(p) = (v)[l])
VF int64x1x2_t vld2_s64(const int64_t *p) { int64x1x2_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_s64(int64_t *p, int64x1x2_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int64x1x2_t vld1_s64_x2(const int64_t *p) { int64x1x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_s64(p + k*1); return r; }
VF int64x1x3_t vld3_s64(const int64_t *p) { int64x1x3_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_s64(int64_t *p, int64x1x3_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int64x1x3_t vld1_s64_x3(const int64_t *p) { int64x1x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_s64(p + k*1); return r; }
VF int64x1x4_t vld4_s64(const int64_t *p) { int64x1x4_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_s64(int64_t *p, int64x1x4_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int64x1x4_t vld1_s64_x4(const int64_t *p) { int64x1x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_s64(p + k*1); return r; }
VF int64x1_t vdup_n_s64(int64_t x) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = x; return r; }
VF int64x1_t vmov_n_s64(int64_t x) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = x; return r; }
VF int64x1_t vadd_s64(int64x1_t a, int64x1_t b) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)((uint64_t)a[i] + (uint64_t)b[i]); return r; }
VF int64x1_t vadd_n_s64(int64x1_t a, int64_t x) { return vadd_s64(a, vdup_n_s64(x)); }
VF int64x1_t vsub_s64(int64x1_t a, int64x1_t b) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VF int64x1_t vsub_n_s64(int64x1_t a, int64_t x) { return vsub_s64(a, vdup_n_s64(x)); }
VF int64x1_t vneg_s64(int64x1_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(0 - (uint64_t)a[i]); return r; }
VF int64x1_t vabs_s64(int64x1_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] < 0 ? (int64_t)(0 - (uint64_t)a[i]) : a[i]; return r; }
VF int64x1_t vand_s64(int64x1_t a, int64x1_t b) { return a & b; }
VF int64x1_t vorr_s64(int64x1_t a, int64x1_t b) { return a | b; }
VF int64x1_t veor_s64(int64x1_t a, int64x1_t b) { return a ^ b; }
VF int64x1_t vbic_s64(int64x1_t a, int64x1_t b) { return a & ~b; }
VF int64x1_t vmvn_s64(int64x1_t a) { return ~a; }
#define vshl_n_s64(a, k) vf_shl_s64((a), (k))
VF int64x1_t vf_shl_s64(int64x1_t a, int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)((uint64_t)a[i] << k); return r; }
#define vshr_n_s64(a, k) vf_shr_s64((a), (k))
VF int64x1_t vf_shr_s64(int64x1_t a, int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = k >= 64 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_s64(a, k) vf_rshr_s64((a), (k))
VF int64x1_t vf_rshr_s64(int64x1_t a, int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int64x1_t vqadd_s64(int64x1_t a, int64x1_t b) { int64x1_t r; for (int i = 0; i < 1; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int64_t)(t < -((__int128)1 << 63) ? -((__int128)1 << 63) : t > (((__int128)1 << 63) - 1) ? (((__int128)1 << 63) - 1) : t); } return r; }
VF int64x1_t vqsub_s64(int64x1_t a, int64x1_t b) { int64x1_t r; for (int i = 0; i < 1; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int64_t)(t < -((__int128)1 << 63) ? -((__int128)1 << 63) : t > (((__int128)1 << 63) - 1) ? (((__int128)1 << 63) - 1) : t); } return r; }
VF uint64x1_t vceq_s64(int64x1_t a, int64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] == b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcgt_s64(int64x1_t a, int64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] > b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcge_s64(int64x1_t a, int64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] >= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vclt_s64(int64x1_t a, int64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] < b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcle_s64(int64x1_t a, int64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] <= b[i] ? (uint64_t)-1 : 0; return r; }
VF int64x1_t vbsl_s64(uint64x1_t m, int64x1_t a, int64x1_t b) { return (int64x1_t)((m & (uint64x1_t)a) | (~m & (uint64x1_t)b)); }
#define vext_s64(a, b, k) vf_ext_s64((a), (b), (k))
VF int64x1_t vf_ext_s64(int64x1_t a, int64x1_t b, int k) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = i + k < 1 ? a[(i + k) % 1] : b[(i + k) % 1]; return r; }
#define vget_lane_s64(a, l) ((a)[l])
#define vset_lane_s64(x, a, l) __extension__({ int64x1_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_s64(a, l) vdup_n_s64((a)[l])
#define vdup_laneq_s64(a, l) vdup_n_s64((a)[l])
VF int64x2_t vld1q_s64(const int64_t *p) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = p[i]; return r; }
VF void vst1q_s64(int64_t *p, int64x2_t a) { for (int i = 0; i < 2; i++) p[i] = a[i]; }
VF int64x2_t vld1q_dup_s64(const int64_t *p) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
#define vld1q_lane_s64(p, v, l) __extension__({ int64x2_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_s64(p, v, l) (*(p) = (v)[l])
VF int64x2x2_t vld2q_s64(const int64_t *p) { int64x2x2_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_s64(int64_t *p, int64x2x2_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF int64x2x2_t vld1q_s64_x2(const int64_t *p) { int64x2x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_s64(p + k*2); return r; }
VF int64x2x3_t vld3q_s64(const int64_t *p) { int64x2x3_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_s64(int64_t *p, int64x2x3_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF int64x2x3_t vld1q_s64_x3(const int64_t *p) { int64x2x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_s64(p + k*2); return r; }
VF int64x2x4_t vld4q_s64(const int64_t *p) { int64x2x4_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_s64(int64_t *p, int64x2x4_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF int64x2x4_t vld1q_s64_x4(const int64_t *p) { int64x2x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_s64(p + k*2); return r; }
VF int64x2_t vdupq_n_s64(int64_t x) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF int64x2_t vmovq_n_s64(int64_t x) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF int64x2_t vaddq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)a[i] + (uint64_t)b[i]); return r; }
VF int64x2_t vaddq_n_s64(int64x2_t a, int64_t x) { return vaddq_s64(a, vdupq_n_s64(x)); }
VF int64x2_t vsubq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VF int64x2_t vsubq_n_s64(int64x2_t a, int64_t x) { return vsubq_s64(a, vdupq_n_s64(x)); }
VF int64x2_t vnegq_s64(int64x2_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(0 - (uint64_t)a[i]); return r; }
VF int64x2_t vabsq_s64(int64x2_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < 0 ? (int64_t)(0 - (uint64_t)a[i]) : a[i]; return r; }
VF int64x2_t vandq_s64(int64x2_t a, int64x2_t b) { return a & b; }
VF int64x2_t vorrq_s64(int64x2_t a, int64x2_t b) { return a | b; }
VF int64x2_t veorq_s64(int64x2_t a, int64x2_t b) { return a ^ b; }
VF int64x2_t vbicq_s64(int64x2_t a, int64x2_t b) { return a & ~b; }
VF int64x2_t vmvnq_s64(int64x2_t a) { return ~a; }
#define vshlq_n_s64(a, k) vf_shlq_s64((a), (k))
VF int64x2_t vf_shlq_s64(int64x2_t a, int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)a[i] << k); return r; }
#define vshrq_n_s64(a, k) vf_shrq_s64((a), (k))
VF int64x2_t vf_shrq_s64(int64x2_t a, int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = k >= 64 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_s64(a, k) vf_rshrq_s64((a), (k))
VF int64x2_t vf_rshrq_s64(int64x2_t a, int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF int64x2_t vqaddq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (int64_t)(t < -((__int128)1 << 63) ? -((__int128)1 << 63) : t > (((__int128)1 << 63) - 1) ? (((__int128)1 << 63) - 1) : t); } return r; }
VF int64x2_t vqsubq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (int64_t)(t < -((__int128)1 << 63) ? -((__int128)1 << 63) : t > (((__int128)1 << 63) - 1) ? (((__int128)1 << 63) - 1) : t); } return r; }
VF int64_t vaddvq_s64(int64x2_t a) { int64_t r = 0; for (int i = 0; i < 2; i++) r = (int64_t)((uint64_t)r + (uint64_t)a[i]); return r; }
VF int64x2_t vpaddq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[i] = (int64_t)((uint64_t)a[2*i] + (uint64_t)a[2*i+1]); r[i + 1] = (int64_t)((uint64_t)b[2*i] + (uint64_t)b[2*i+1]); } return r; }
VF uint64x2_t vceqq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] == b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcgtq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcgeq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] >= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcltq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcleq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] <= b[i] ? (uint64_t)-1 : 0; return r; }
VF int64x2_t vbslq_s64(uint64x2_t m, int64x2_t a, int64x2_t b) { return (int64x2_t)((m & (uint64x2_t)a) | (~m & (uint64x2_t)b)); }
#define vextq_s64(a, b, k) vf_extq_s64((a), (b), (k))
VF int64x2_t vf_extq_s64(int64x2_t a, int64x2_t b, int k) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[(i + k) % 2] : b[(i + k) % 2]; return r; }
VF int64x2_t vtrn1q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF int64x2_t vtrn2q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF int64x2_t vzip1q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF int64x2_t vzip2q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i+1]; r[2*i+1] = b[i+1]; } return r; }
VF int64x2_t vuzp1q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i]; r[i+1] = b[2*i]; } return r; }
VF int64x2_t vuzp2q_s64(int64x2_t a, int64x2_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i+1]; r[i+1] = b[2*i+1]; } return r; }
VF int64x2x2_t vtrnq_s64(int64x2_t a, int64x2_t b) { return (int64x2x2_t){ { vtrn1q_s64(a, b), vtrn2q_s64(a, b) } }; }
VF int64x2x2_t vzipq_s64(int64x2_t a, int64x2_t b) { return (int64x2x2_t){ { vzip1q_s64(a, b), vzip2q_s64(a, b) } }; }
VF int64x2x2_t vuzpq_s64(int64x2_t a, int64x2_t b) { return (int64x2x2_t){ { vuzp1q_s64(a, b), vuzp2q_s64(a, b) } }; }
#define vgetq_lane_s64(a, l) ((a)[l])
#define vsetq_lane_s64(x, a, l) __extension__({ int64x2_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_s64(a, l) vdupq_n_s64((a)[l])
#define vdupq_laneq_s64(a, l) vdupq_n_s64((a)[l])
VF int64x2_t vcombine_s64(int64x1_t a, int64x1_t b) { int64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[i]; r[i+1] = b[i]; } return r; }
VF int64x1_t vget_low_s64(int64x2_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i]; return r; }
VF int64x1_t vget_high_s64(int64x2_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i+1]; return r; }
VF int64x1_t vcreate_s64(uint64_t x) { int64x1_t r; memcpy(&r, &x, 8); return r; }
VF uint64x1_t vld1_u64(const uint64_t *p) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = p[i]; return r; }
VF void vst1_u64(uint64_t *p, uint64x1_t a) { for (int i = 0; i < 1; i++) p[i] = a[i]; }
VF uint64x1_t vld1_dup_u64(const uint64_t *p) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = *p; return r; }
#define vld1_lane_u64(p, v, l) __extension__({ uint64x1_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_u64(p, v, l) (*(p) = (v)[l])
VF uint64x1x2_t vld2_u64(const uint64_t *p) { uint64x1x2_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_u64(uint64_t *p, uint64x1x2_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint64x1x2_t vld1_u64_x2(const uint64_t *p) { uint64x1x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_u64(p + k*1); return r; }
VF uint64x1x3_t vld3_u64(const uint64_t *p) { uint64x1x3_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_u64(uint64_t *p, uint64x1x3_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint64x1x3_t vld1_u64_x3(const uint64_t *p) { uint64x1x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_u64(p + k*1); return r; }
VF uint64x1x4_t vld4_u64(const uint64_t *p) { uint64x1x4_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_u64(uint64_t *p, uint64x1x4_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint64x1x4_t vld1_u64_x4(const uint64_t *p) { uint64x1x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_u64(p + k*1); return r; }
VF uint64x1_t vdup_n_u64(uint64_t x) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = x; return r; }
VF uint64x1_t vmov_n_u64(uint64_t x) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = x; return r; }
VF uint64x1_t vadd_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)((uint64_t)a[i] + (uint64_t)b[i]); return r; }
VF uint64x1_t vadd_n_u64(uint64x1_t a, uint64_t x) { return vadd_u64(a, vdup_n_u64(x)); }
VF uint64x1_t vsub_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VF uint64x1_t vsub_n_u64(uint64x1_t a, uint64_t x) { return vsub_u64(a, vdup_n_u64(x)); }
VF uint64x1_t vand_u64(uint64x1_t a, uint64x1_t b) { return a & b; }
VF uint64x1_t vorr_u64(uint64x1_t a, uint64x1_t b) { return a | b; }
VF uint64x1_t veor_u64(uint64x1_t a, uint64x1_t b) { return a ^ b; }
VF uint64x1_t vbic_u64(uint64x1_t a, uint64x1_t b) { return a & ~b; }
VF uint64x1_t vmvn_u64(uint64x1_t a) { return ~a; }
#define vshl_n_u64(a, k) vf_shl_u64((a), (k))
VF uint64x1_t vf_shl_u64(uint64x1_t a, int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)((uint64_t)a[i] << k); return r; }
#define vshr_n_u64(a, k) vf_shr_u64((a), (k))
VF uint64x1_t vf_shr_u64(uint64x1_t a, int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = k >= 64 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshr_n_u64(a, k) vf_rshr_u64((a), (k))
VF uint64x1_t vf_rshr_u64(uint64x1_t a, int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint64x1_t vqadd_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint64_t)(t < 0 ? 0 : t > (((__int128)1 << 64) - 1) ? (((__int128)1 << 64) - 1) : t); } return r; }
VF uint64x1_t vqsub_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint64_t)(t < 0 ? 0 : t > (((__int128)1 << 64) - 1) ? (((__int128)1 << 64) - 1) : t); } return r; }
VF uint64x1_t vceq_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] == b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcgt_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] > b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcge_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] >= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vclt_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] < b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcle_u64(uint64x1_t a, uint64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] <= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vbsl_u64(uint64x1_t m, uint64x1_t a, uint64x1_t b) { return (uint64x1_t)((m & (uint64x1_t)a) | (~m & (uint64x1_t)b)); }
#define vext_u64(a, b, k) vf_ext_u64((a), (b), (k))
VF uint64x1_t vf_ext_u64(uint64x1_t a, uint64x1_t b, int k) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = i + k < 1 ? a[(i + k) % 1] : b[(i + k) % 1]; return r; }
#define vget_lane_u64(a, l) ((a)[l])
#define vset_lane_u64(x, a, l) __extension__({ uint64x1_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_u64(a, l) vdup_n_u64((a)[l])
#define vdup_laneq_u64(a, l) vdup_n_u64((a)[l])
VF uint64x2_t vld1q_u64(const uint64_t *p) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = p[i]; return r; }
VF void vst1q_u64(uint64_t *p, uint64x2_t a) { for (int i = 0; i < 2; i++) p[i] = a[i]; }
VF uint64x2_t vld1q_dup_u64(const uint64_t *p) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
#define vld1q_lane_u64(p, v, l) __extension__({ uint64x2_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_u64(p, v, l) (*(p) = (v)[l])
VF uint64x2x2_t vld2q_u64(const uint64_t *p) { uint64x2x2_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_u64(uint64_t *p, uint64x2x2_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF uint64x2x2_t vld1q_u64_x2(const uint64_t *p) { uint64x2x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_u64(p + k*2); return r; }
VF uint64x2x3_t vld3q_u64(const uint64_t *p) { uint64x2x3_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_u64(uint64_t *p, uint64x2x3_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF uint64x2x3_t vld1q_u64_x3(const uint64_t *p) { uint64x2x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_u64(p + k*2); return r; }
VF uint64x2x4_t vld4q_u64(const uint64_t *p) { uint64x2x4_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_u64(uint64_t *p, uint64x2x4_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF uint64x2x4_t vld1q_u64_x4(const uint64_t *p) { uint64x2x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_u64(p + k*2); return r; }
VF uint64x2_t vdupq_n_u64(uint64_t x) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF uint64x2_t vmovq_n_u64(uint64_t x) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF uint64x2_t vaddq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)a[i] + (uint64_t)b[i]); return r; }
VF uint64x2_t vaddq_n_u64(uint64x2_t a, uint64_t x) { return vaddq_u64(a, vdupq_n_u64(x)); }
VF uint64x2_t vsubq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VF uint64x2_t vsubq_n_u64(uint64x2_t a, uint64_t x) { return vsubq_u64(a, vdupq_n_u64(x)); }
VF uint64x2_t vandq_u64(uint64x2_t a, uint64x2_t b) { return a & b; }
VF uint64x2_t vorrq_u64(uint64x2_t a, uint64x2_t b) { return a | b; }
VF uint64x2_t veorq_u64(uint64x2_t a, uint64x2_t b) { return a ^ b; }
VF uint64x2_t vbicq_u64(uint64x2_t a, uint64x2_t b) { return a & ~b; }
VF uint64x2_t vmvnq_u64(uint64x2_t a) { return ~a; }
#define vshlq_n_u64(a, k) vf_shlq_u64((a), (k))
VF uint64x2_t vf_shlq_u64(uint64x2_t a, int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)a[i] << k); return r; }
#define vshrq_n_u64(a, k) vf_shrq_u64((a), (k))
VF uint64x2_t vf_shrq_u64(uint64x2_t a, int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = k >= 64 ? (a[i] < 0 ? -1 : 0) : a[i] >> k; return r; }
#define vrshrq_n_u64(a, k) vf_rshrq_u64((a), (k))
VF uint64x2_t vf_rshrq_u64(uint64x2_t a, int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k); return r; }
VF uint64x2_t vqaddq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] + b[i]; r[i] = (uint64_t)(t < 0 ? 0 : t > (((__int128)1 << 64) - 1) ? (((__int128)1 << 64) - 1) : t); } return r; }
VF uint64x2_t vqsubq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) { __int128 t = (__int128)a[i] - b[i]; r[i] = (uint64_t)(t < 0 ? 0 : t > (((__int128)1 << 64) - 1) ? (((__int128)1 << 64) - 1) : t); } return r; }
VF uint64_t vaddvq_u64(uint64x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; i++) r = (uint64_t)((uint64_t)r + (uint64_t)a[i]); return r; }
VF uint64x2_t vpaddq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[i] = (uint64_t)((uint64_t)a[2*i] + (uint64_t)a[2*i+1]); r[i + 1] = (uint64_t)((uint64_t)b[2*i] + (uint64_t)b[2*i+1]); } return r; }
VF uint64x2_t vceqq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] == b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcgtq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcgeq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] >= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcltq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcleq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] <= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vbslq_u64(uint64x2_t m, uint64x2_t a, uint64x2_t b) { return (uint64x2_t)((m & (uint64x2_t)a) | (~m & (uint64x2_t)b)); }
#define vextq_u64(a, b, k) vf_extq_u64((a), (b), (k))
VF uint64x2_t vf_extq_u64(uint64x2_t a, uint64x2_t b, int k) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[(i + k) % 2] : b[(i + k) % 2]; return r; }
VF uint64x2_t vtrn1q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF uint64x2_t vtrn2q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF uint64x2_t vzip1q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF uint64x2_t vzip2q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i+1]; r[2*i+1] = b[i+1]; } return r; }
VF uint64x2_t vuzp1q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i]; r[i+1] = b[2*i]; } return r; }
VF uint64x2_t vuzp2q_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i+1]; r[i+1] = b[2*i+1]; } return r; }
VF uint64x2x2_t vtrnq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2x2_t){ { vtrn1q_u64(a, b), vtrn2q_u64(a, b) } }; }
VF uint64x2x2_t vzipq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2x2_t){ { vzip1q_u64(a, b), vzip2q_u64(a, b) } }; }
VF uint64x2x2_t vuzpq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2x2_t){ { vuzp1q_u64(a, b), vuzp2q_u64(a, b) } }; }
#define vgetq_lane_u64(a, l) ((a)[l])
#define vsetq_lane_u64(x, a, l) __extension__({ uint64x2_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_u64(a, l) vdupq_n_u64((a)[l])
#define vdupq_laneq_u64(a, l) vdupq_n_u64((a)[l])
VF uint64x2_t vcombine_u64(uint64x1_t a, uint64x1_t b) { uint64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[i]; r[i+1] = b[i]; } return r; }
VF uint64x1_t vget_low_u64(uint64x2_t a) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i]; return r; }
VF uint64x1_t vget_high_u64(uint64x2_t a) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i+1]; return r; }
VF uint64x1_t vcreate_u64(uint64_t x) { uint64x1_t r; memcpy(&r, &x, 8); return r; }
VF float32x2_t vld1_f32(const float *p) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = p[i]; return r; }
VF void vst1_f32(float *p, float32x2_t a) { for (int i = 0; i < 2; i++) p[i] = a[i]; }
VF float32x2_t vld1_dup_f32(const float *p) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
#define vld1_lane_f32(p, v, l) __extension__({ float32x2_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_f32(p, v, l) (*(p) = (v)[l])
VF float32x2x2_t vld2_f32(const float *p) { float32x2x2_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_f32(float *p, float32x2x2_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF float32x2x2_t vld1_f32_x2(const float *p) { float32x2x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_f32(p + k*2); return r; }
VF float32x2x3_t vld3_f32(const float *p) { float32x2x3_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_f32(float *p, float32x2x3_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF float32x2x3_t vld1_f32_x3(const float *p) { float32x2x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_f32(p + k*2); return r; }
VF float32x2x4_t vld4_f32(const float *p) { float32x2x4_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_f32(float *p, float32x2x4_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF float32x2x4_t vld1_f32_x4(const float *p) { float32x2x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_f32(p + k*2); return r; }
VF float32x2_t vdup_n_f32(float x) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF float32x2_t vmov_n_f32(float x) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] + b[i]; return r; }
VF float32x2_t vadd_n_f32(float32x2_t a, float x) { return vadd_f32(a, vdup_n_f32(x)); }
VF float32x2_t vsub_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] - b[i]; return r; }
VF float32x2_t vsub_n_f32(float32x2_t a, float x) { return vsub_f32(a, vdup_n_f32(x)); }
VF float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] * b[i]; return r; }
VF float32x2_t vmul_n_f32(float32x2_t a, float x) { return vmul_f32(a, vdup_n_f32(x)); }
VF float32x2_t vdiv_f32(float32x2_t a, float32x2_t b) { return a / b; }
VF float32x2_t vsqrt_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_sqrtf(a[i]); return r; }
VF float32x2_t vmla_f32(float32x2_t a, float32x2_t b, float32x2_t c) { return vadd_f32(a, vmul_f32(b, c)); }
VF float32x2_t vmls_f32(float32x2_t a, float32x2_t b, float32x2_t c) { return vsub_f32(a, vmul_f32(b, c)); }
VF float32x2_t vmla_n_f32(float32x2_t a, float32x2_t b, float c) { return vmla_f32(a, b, vdup_n_f32(c)); }
VF float32x2_t vmls_n_f32(float32x2_t a, float32x2_t b, float c) { return vmls_f32(a, b, vdup_n_f32(c)); }
VF float32x2_t vfma_f32(float32x2_t a, float32x2_t b, float32x2_t c) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = (float)((double)b[i] * c[i] + a[i]); return r; }
VF float32x2_t vfms_f32(float32x2_t a, float32x2_t b, float32x2_t c) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = (float)(a[i] - (double)b[i] * c[i]); return r; }
VF float32x2_t vfma_n_f32(float32x2_t a, float32x2_t b, float c) { return vfma_f32(a, b, vdup_n_f32(c)); }
VF float32x2_t vfms_n_f32(float32x2_t a, float32x2_t b, float c) { return vfms_f32(a, b, vdup_n_f32(c)); }
VF float32x2_t vneg_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = -a[i]; return r; }
VF float32x2_t vabs_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < 0 ? -a[i] : a[i]; return r; }
VF float32x2_t vmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF float vmaxv_f32(float32x2_t a) { float r = a[0]; for (int i = 1; i < 2; i++) r = a[i] > r ? a[i] : r; return r; }
VF float32x2_t vmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF float vminv_f32(float32x2_t a) { float r = a[0]; for (int i = 1; i < 2; i++) r = a[i] < r ? a[i] : r; return r; }
VF float vaddv_f32(float32x2_t a) { float r = 0; for (int i = 0; i < 2; i++) r = r + a[i]; return r; }
VF float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i] + a[2*i+1]; r[i + 1] = b[2*i] + b[2*i+1]; } return r; }
VF uint32x2_t vceq_f32(float32x2_t a, float32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] == b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcgt_f32(float32x2_t a, float32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcge_f32(float32x2_t a, float32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] >= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vclt_f32(float32x2_t a, float32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x2_t vcle_f32(float32x2_t a, float32x2_t b) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] <= b[i] ? (uint32_t)-1 : 0; return r; }
VF float32x2_t vbsl_f32(uint32x2_t m, float32x2_t a, float32x2_t b) { return (float32x2_t)((m & (uint32x2_t)a) | (~m & (uint32x2_t)b)); }
#define vext_f32(a, b, k) vf_ext_f32((a), (b), (k))
VF float32x2_t vf_ext_f32(float32x2_t a, float32x2_t b, int k) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[(i + k) % 2] : b[(i + k) % 2]; return r; }
VF float32x2_t vtrn1_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF float32x2_t vtrn2_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF float32x2_t vzip1_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF float32x2_t vzip2_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i+1]; r[2*i+1] = b[i+1]; } return r; }
VF float32x2_t vuzp1_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i]; r[i+1] = b[2*i]; } return r; }
VF float32x2_t vuzp2_f32(float32x2_t a, float32x2_t b) { float32x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i+1]; r[i+1] = b[2*i+1]; } return r; }
VF float32x2x2_t vtrn_f32(float32x2_t a, float32x2_t b) { return (float32x2x2_t){ { vtrn1_f32(a, b), vtrn2_f32(a, b) } }; }
VF float32x2x2_t vzip_f32(float32x2_t a, float32x2_t b) { return (float32x2x2_t){ { vzip1_f32(a, b), vzip2_f32(a, b) } }; }
VF float32x2x2_t vuzp_f32(float32x2_t a, float32x2_t b) { return (float32x2x2_t){ { vuzp1_f32(a, b), vuzp2_f32(a, b) } }; }
VF float32x2_t vrev64_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i ^ 1]; return r; }
#define vget_lane_f32(a, l) ((a)[l])
#define vset_lane_f32(x, a, l) __extension__({ float32x2_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_f32(a, l) vdup_n_f32((a)[l])
#define vdup_laneq_f32(a, l) vdup_n_f32((a)[l])
#define vmul_lane_f32(b, c, l) vmul_f32((b), vdup_n_f32((c)[l]))
#define vmul_laneq_f32(b, c, l) vmul_f32((b), vdup_n_f32((c)[l]))
#define vmla_lane_f32(a, b, c, l) vmla_f32((a), (b), vdup_n_f32((c)[l]))
#define vmla_laneq_f32(a, b, c, l) vmla_f32((a), (b), vdup_n_f32((c)[l]))
#define vmls_lane_f32(a, b, c, l) vmls_f32((a), (b), vdup_n_f32((c)[l]))
#define vmls_laneq_f32(a, b, c, l) vmls_f32((a), (b), vdup_n_f32((c)[l]))
#define vfma_lane_f32(a, b, c, l) vfma_f32((a), (b), vdup_n_f32((c)[l]))
#define vfma_laneq_f32(a, b, c, l) vfma_f32((a), (b), vdup_n_f32((c)[l]))
#define vfms_lane_f32(a, b, c, l) vfms_f32((a), (b), vdup_n_f32((c)[l]))
#define vfms_laneq_f32(a, b, c, l) vfms_f32((a), (b), vdup_n_f32((c)[l]))
VF float32x4_t vld1q_f32(const float *p) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = p[i]; return r; }
VF void vst1q_f32(float *p, float32x4_t a) { for (int i = 0; i < 4; i++) p[i] = a[i]; }
VF float32x4_t vld1q_dup_f32(const float *p) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = *p; return r; }
#define vld1q_lane_f32(p, v, l) __extension__({ float32x4_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_f32(p, v, l) (*(p) = (v)[l])
VF float32x4x2_t vld2q_f32(const float *p) { float32x4x2_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_f32(float *p, float32x4x2_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF float32x4x2_t vld1q_f32_x2(const float *p) { float32x4x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_f32(p + k*4); return r; }
VF float32x4x3_t vld3q_f32(const float *p) { float32x4x3_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_f32(float *p, float32x4x3_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF float32x4x3_t vld1q_f32_x3(const float *p) { float32x4x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_f32(p + k*4); return r; }
VF float32x4x4_t vld4q_f32(const float *p) { float32x4x4_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_f32(float *p, float32x4x4_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF float32x4x4_t vld1q_f32_x4(const float *p) { float32x4x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_f32(p + k*4); return r; }
VF float32x4_t vdupq_n_f32(float x) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF float32x4_t vmovq_n_f32(float x) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = x; return r; }
VF float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] + b[i]; return r; }
VF float32x4_t vaddq_n_f32(float32x4_t a, float x) { return vaddq_f32(a, vdupq_n_f32(x)); }
VF float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] - b[i]; return r; }
VF float32x4_t vsubq_n_f32(float32x4_t a, float x) { return vsubq_f32(a, vdupq_n_f32(x)); }
VF float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] * b[i]; return r; }
VF float32x4_t vmulq_n_f32(float32x4_t a, float x) { return vmulq_f32(a, vdupq_n_f32(x)); }
VF float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
VF float32x4_t vsqrtq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_sqrtf(a[i]); return r; }
VF float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return vaddq_f32(a, vmulq_f32(b, c)); }
VF float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return vsubq_f32(a, vmulq_f32(b, c)); }
VF float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float c) { return vmlaq_f32(a, b, vdupq_n_f32(c)); }
VF float32x4_t vmlsq_n_f32(float32x4_t a, float32x4_t b, float c) { return vmlsq_f32(a, b, vdupq_n_f32(c)); }
VF float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (float)((double)b[i] * c[i] + a[i]); return r; }
VF float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (float)(a[i] - (double)b[i] * c[i]); return r; }
VF float32x4_t vfmaq_n_f32(float32x4_t a, float32x4_t b, float c) { return vfmaq_f32(a, b, vdupq_n_f32(c)); }
VF float32x4_t vfmsq_n_f32(float32x4_t a, float32x4_t b, float c) { return vfmsq_f32(a, b, vdupq_n_f32(c)); }
VF float32x4_t vnegq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = -a[i]; return r; }
VF float32x4_t vabsq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < 0 ? -a[i] : a[i]; return r; }
VF float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF float vmaxvq_f32(float32x4_t a) { float r = a[0]; for (int i = 1; i < 4; i++) r = a[i] > r ? a[i] : r; return r; }
VF float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF float vminvq_f32(float32x4_t a) { float r = a[0]; for (int i = 1; i < 4; i++) r = a[i] < r ? a[i] : r; return r; }
VF float vaddvq_f32(float32x4_t a) { float r = 0; for (int i = 0; i < 4; i++) r = r + a[i]; return r; }
VF float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i] + a[2*i+1]; r[i + 2] = b[2*i] + b[2*i+1]; } return r; }
VF uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] == b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] >= b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] < b[i] ? (uint32_t)-1 : 0; return r; }
VF uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] <= b[i] ? (uint32_t)-1 : 0; return r; }
VF float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
#define vextq_f32(a, b, k) vf_extq_f32((a), (b), (k))
VF float32x4_t vf_extq_f32(float32x4_t a, float32x4_t b, int k) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + k < 4 ? a[(i + k) % 4] : b[(i + k) % 4]; return r; }
VF float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[2*i] = a[i+2]; r[2*i+1] = b[i+2]; } return r; }
VF float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i]; r[i+2] = b[2*i]; } return r; }
VF float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[2*i+1]; r[i+2] = b[2*i+1]; } return r; }
VF float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { return (float32x4x2_t){ { vtrn1q_f32(a, b), vtrn2q_f32(a, b) } }; }
VF float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { return (float32x4x2_t){ { vzip1q_f32(a, b), vzip2q_f32(a, b) } }; }
VF float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { return (float32x4x2_t){ { vuzp1q_f32(a, b), vuzp2q_f32(a, b) } }; }
VF float32x4_t vrev64q_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i ^ 1]; return r; }
#define vgetq_lane_f32(a, l) ((a)[l])
#define vsetq_lane_f32(x, a, l) __extension__({ float32x4_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_f32(a, l) vdupq_n_f32((a)[l])
#define vdupq_laneq_f32(a, l) vdupq_n_f32((a)[l])
#define vmulq_lane_f32(b, c, l) vmulq_f32((b), vdupq_n_f32((c)[l]))
#define vmulq_laneq_f32(b, c, l) vmulq_f32((b), vdupq_n_f32((c)[l]))
#define vmlaq_lane_f32(a, b, c, l) vmlaq_f32((a), (b), vdupq_n_f32((c)[l]))
#define vmlaq_laneq_f32(a, b, c, l) vmlaq_f32((a), (b), vdupq_n_f32((c)[l]))
#define vmlsq_lane_f32(a, b, c, l) vmlsq_f32((a), (b), vdupq_n_f32((c)[l]))
#define vmlsq_laneq_f32(a, b, c, l) vmlsq_f32((a), (b), vdupq_n_f32((c)[l]))
#define vfmaq_lane_f32(a, b, c, l) vfmaq_f32((a), (b), vdupq_n_f32((c)[l]))
#define vfmaq_laneq_f32(a, b, c, l) vfmaq_f32((a), (b), vdupq_n_f32((c)[l]))
#define vfmsq_lane_f32(a, b, c, l) vfmsq_f32((a), (b), vdupq_n_f32((c)[l]))
#define vfmsq_laneq_f32(a, b, c, l) vfmsq_f32((a), (b), vdupq_n_f32((c)[l]))
VF float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r; for (int i = 0; i < 2; i++) { r[i] = a[i]; r[i+2] = b[i]; } return r; }
VF float32x2_t vget_low_f32(float32x4_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i]; return r; }
VF float32x2_t vget_high_f32(float32x4_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i+2]; return r; }
VF float32x2_t vcreate_f32(uint64_t x) { float32x2_t r; memcpy(&r, &x, 8); return r; }
VF float64x1_t vld1_f64(const double *p) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = p[i]; return r; }
VF void vst1_f64(double *p, float64x1_t a) { for (int i = 0; i < 1; i++) p[i] = a[i]; }
VF float64x1_t vld1_dup_f64(const double *p) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = *p; return r; }
#define vld1_lane_f64(p, v, l) __extension__({ float64x1_t v_ = (v); v_[l] = *(p); v_; })
#define vst1_lane_f64(p, v, l) (*(p) = (v)[l])
VF float64x1x2_t vld2_f64(const double *p) { float64x1x2_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2_f64(double *p, float64x1x2_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF float64x1x2_t vld1_f64_x2(const double *p) { float64x1x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1_f64(p + k*1); return r; }
VF float64x1x3_t vld3_f64(const double *p) { float64x1x3_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3_f64(double *p, float64x1x3_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF float64x1x3_t vld1_f64_x3(const double *p) { float64x1x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1_f64(p + k*1); return r; }
VF float64x1x4_t vld4_f64(const double *p) { float64x1x4_t r; for (int i = 0; i < 1; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4_f64(double *p, float64x1x4_t a) { for (int i = 0; i < 1; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF float64x1x4_t vld1_f64_x4(const double *p) { float64x1x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1_f64(p + k*1); return r; }
VF float64x1_t vdup_n_f64(double x) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = x; return r; }
VF float64x1_t vmov_n_f64(double x) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = x; return r; }
VF float64x1_t vadd_f64(float64x1_t a, float64x1_t b) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] + b[i]; return r; }
VF float64x1_t vadd_n_f64(float64x1_t a, double x) { return vadd_f64(a, vdup_n_f64(x)); }
VF float64x1_t vsub_f64(float64x1_t a, float64x1_t b) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] - b[i]; return r; }
VF float64x1_t vsub_n_f64(float64x1_t a, double x) { return vsub_f64(a, vdup_n_f64(x)); }
VF float64x1_t vmul_f64(float64x1_t a, float64x1_t b) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] * b[i]; return r; }
VF float64x1_t vmul_n_f64(float64x1_t a, double x) { return vmul_f64(a, vdup_n_f64(x)); }
VF float64x1_t vdiv_f64(float64x1_t a, float64x1_t b) { return a / b; }
VF float64x1_t vsqrt_f64(float64x1_t a) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = __builtin_sqrt(a[i]); return r; }
VF float64x1_t vmla_f64(float64x1_t a, float64x1_t b, float64x1_t c) { return vadd_f64(a, vmul_f64(b, c)); }
VF float64x1_t vmls_f64(float64x1_t a, float64x1_t b, float64x1_t c) { return vsub_f64(a, vmul_f64(b, c)); }
VF float64x1_t vmla_n_f64(float64x1_t a, float64x1_t b, double c) { return vmla_f64(a, b, vdup_n_f64(c)); }
VF float64x1_t vmls_n_f64(float64x1_t a, float64x1_t b, double c) { return vmls_f64(a, b, vdup_n_f64(c)); }
VF float64x1_t vfma_f64(float64x1_t a, float64x1_t b, float64x1_t c) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = __builtin_fma(b[i], c[i], a[i]); return r; }
VF float64x1_t vfms_f64(float64x1_t a, float64x1_t b, float64x1_t c) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = __builtin_fma(-b[i], c[i], a[i]); return r; }
VF float64x1_t vfma_n_f64(float64x1_t a, float64x1_t b, double c) { return vfma_f64(a, b, vdup_n_f64(c)); }
VF float64x1_t vfms_n_f64(float64x1_t a, float64x1_t b, double c) { return vfms_f64(a, b, vdup_n_f64(c)); }
VF float64x1_t vneg_f64(float64x1_t a) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = -a[i]; return r; }
VF float64x1_t vabs_f64(float64x1_t a) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] < 0 ? -a[i] : a[i]; return r; }
VF float64x1_t vmax_f64(float64x1_t a, float64x1_t b) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF float64x1_t vmin_f64(float64x1_t a, float64x1_t b) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF uint64x1_t vceq_f64(float64x1_t a, float64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] == b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcgt_f64(float64x1_t a, float64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] > b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcge_f64(float64x1_t a, float64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] >= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vclt_f64(float64x1_t a, float64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] < b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x1_t vcle_f64(float64x1_t a, float64x1_t b) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i] <= b[i] ? (uint64_t)-1 : 0; return r; }
VF float64x1_t vbsl_f64(uint64x1_t m, float64x1_t a, float64x1_t b) { return (float64x1_t)((m & (uint64x1_t)a) | (~m & (uint64x1_t)b)); }
#define vext_f64(a, b, k) vf_ext_f64((a), (b), (k))
VF float64x1_t vf_ext_f64(float64x1_t a, float64x1_t b, int k) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = i + k < 1 ? a[(i + k) % 1] : b[(i + k) % 1]; return r; }
#define vget_lane_f64(a, l) ((a)[l])
#define vset_lane_f64(x, a, l) __extension__({ float64x1_t v_ = (a); v_[l] = (x); v_; })
#define vdup_lane_f64(a, l) vdup_n_f64((a)[l])
#define vdup_laneq_f64(a, l) vdup_n_f64((a)[l])
#define vmul_lane_f64(b, c, l) vmul_f64((b), vdup_n_f64((c)[l]))
#define vmul_laneq_f64(b, c, l) vmul_f64((b), vdup_n_f64((c)[l]))
#define vmla_lane_f64(a, b, c, l) vmla_f64((a), (b), vdup_n_f64((c)[l]))
#define vmla_laneq_f64(a, b, c, l) vmla_f64((a), (b), vdup_n_f64((c)[l]))
#define vmls_lane_f64(a, b, c, l) vmls_f64((a), (b), vdup_n_f64((c)[l]))
#define vmls_laneq_f64(a, b, c, l) vmls_f64((a), (b), vdup_n_f64((c)[l]))
#define vfma_lane_f64(a, b, c, l) vfma_f64((a), (b), vdup_n_f64((c)[l]))
#define vfma_laneq_f64(a, b, c, l) vfma_f64((a), (b), vdup_n_f64((c)[l]))
#define vfms_lane_f64(a, b, c, l) vfms_f64((a), (b), vdup_n_f64((c)[l]))
#define vfms_laneq_f64(a, b, c, l) vfms_f64((a), (b), vdup_n_f64((c)[l]))
VF float64x2_t vld1q_f64(const double *p) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = p[i]; return r; }
VF void vst1q_f64(double *p, float64x2_t a) { for (int i = 0; i < 2; i++) p[i] = a[i]; }
VF float64x2_t vld1q_dup_f64(const double *p) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = *p; return r; }
#define vld1q_lane_f64(p, v, l) __extension__({ float64x2_t v_ = (v); v_[l] = *(p); v_; })
#define vst1q_lane_f64(p, v, l) (*(p) = (v)[l])
VF float64x2x2_t vld2q_f64(const double *p) { float64x2x2_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2*i + k]; return r; }
VF void vst2q_f64(double *p, float64x2x2_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) p[2*i + k] = a.val[k][i]; }
VF float64x2x2_t vld1q_f64_x2(const double *p) { float64x2x2_t r; for (int k = 0; k < 2; k++) r.val[k] = vld1q_f64(p + k*2); return r; }
VF float64x2x3_t vld3q_f64(const double *p) { float64x2x3_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3*i + k]; return r; }
VF void vst3q_f64(double *p, float64x2x3_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) p[3*i + k] = a.val[k][i]; }
VF float64x2x3_t vld1q_f64_x3(const double *p) { float64x2x3_t r; for (int k = 0; k < 3; k++) r.val[k] = vld1q_f64(p + k*2); return r; }
VF float64x2x4_t vld4q_f64(const double *p) { float64x2x4_t r; for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4*i + k]; return r; }
VF void vst4q_f64(double *p, float64x2x4_t a) { for (int i = 0; i < 2; i++) for (int k = 0; k < 4; k++) p[4*i + k] = a.val[k][i]; }
VF float64x2x4_t vld1q_f64_x4(const double *p) { float64x2x4_t r; for (int k = 0; k < 4; k++) r.val[k] = vld1q_f64(p + k*2); return r; }
VF float64x2_t vdupq_n_f64(double x) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF float64x2_t vmovq_n_f64(double x) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = x; return r; }
VF float64x2_t vaddq_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] + b[i]; return r; }
VF float64x2_t vaddq_n_f64(float64x2_t a, double x) { return vaddq_f64(a, vdupq_n_f64(x)); }
VF float64x2_t vsubq_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] - b[i]; return r; }
VF float64x2_t vsubq_n_f64(float64x2_t a, double x) { return vsubq_f64(a, vdupq_n_f64(x)); }
VF float64x2_t vmulq_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] * b[i]; return r; }
VF float64x2_t vmulq_n_f64(float64x2_t a, double x) { return vmulq_f64(a, vdupq_n_f64(x)); }
VF float64x2_t vdivq_f64(float64x2_t a, float64x2_t b) { return a / b; }
VF float64x2_t vsqrtq_f64(float64x2_t a) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_sqrt(a[i]); return r; }
VF float64x2_t vmlaq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { return vaddq_f64(a, vmulq_f64(b, c)); }
VF float64x2_t vmlsq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { return vsubq_f64(a, vmulq_f64(b, c)); }
VF float64x2_t vmlaq_n_f64(float64x2_t a, float64x2_t b, double c) { return vmlaq_f64(a, b, vdupq_n_f64(c)); }
VF float64x2_t vmlsq_n_f64(float64x2_t a, float64x2_t b, double c) { return vmlsq_f64(a, b, vdupq_n_f64(c)); }
VF float64x2_t vfmaq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_fma(b[i], c[i], a[i]); return r; }
VF float64x2_t vfmsq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_fma(-b[i], c[i], a[i]); return r; }
VF float64x2_t vfmaq_n_f64(float64x2_t a, float64x2_t b, double c) { return vfmaq_f64(a, b, vdupq_n_f64(c)); }
VF float64x2_t vfmsq_n_f64(float64x2_t a, float64x2_t b, double c) { return vfmsq_f64(a, b, vdupq_n_f64(c)); }
VF float64x2_t vnegq_f64(float64x2_t a) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = -a[i]; return r; }
VF float64x2_t vabsq_f64(float64x2_t a) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < 0 ? -a[i] : a[i]; return r; }
VF float64x2_t vmaxq_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
VF double vmaxvq_f64(float64x2_t a) { double r = a[0]; for (int i = 1; i < 2; i++) r = a[i] > r ? a[i] : r; return r; }
VF float64x2_t vminq_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
VF double vminvq_f64(float64x2_t a) { double r = a[0]; for (int i = 1; i < 2; i++) r = a[i] < r ? a[i] : r; return r; }
VF double vaddvq_f64(float64x2_t a) { double r = 0; for (int i = 0; i < 2; i++) r = r + a[i]; return r; }
VF float64x2_t vpaddq_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i] + a[2*i+1]; r[i + 1] = b[2*i] + b[2*i+1]; } return r; }
VF uint64x2_t vceqq_f64(float64x2_t a, float64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] == b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcgtq_f64(float64x2_t a, float64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] > b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcgeq_f64(float64x2_t a, float64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] >= b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcltq_f64(float64x2_t a, float64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] < b[i] ? (uint64_t)-1 : 0; return r; }
VF uint64x2_t vcleq_f64(float64x2_t a, float64x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] <= b[i] ? (uint64_t)-1 : 0; return r; }
VF float64x2_t vbslq_f64(uint64x2_t m, float64x2_t a, float64x2_t b) { return (float64x2_t)((m & (uint64x2_t)a) | (~m & (uint64x2_t)b)); }
#define vextq_f64(a, b, k) vf_extq_f64((a), (b), (k))
VF float64x2_t vf_extq_f64(float64x2_t a, float64x2_t b, int k) { float64x2_t r; for (int i = 0; i < 2; i++) r[i] = i + k < 2 ? a[(i + k) % 2] : b[(i + k) % 2]; return r; }
VF float64x2_t vtrn1q_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; } return r; }
VF float64x2_t vtrn2q_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; } return r; }
VF float64x2_t vzip1q_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
VF float64x2_t vzip2q_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[2*i] = a[i+1]; r[2*i+1] = b[i+1]; } return r; }
VF float64x2_t vuzp1q_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i]; r[i+1] = b[2*i]; } return r; }
VF float64x2_t vuzp2q_f64(float64x2_t a, float64x2_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[2*i+1]; r[i+1] = b[2*i+1]; } return r; }
VF float64x2x2_t vtrnq_f64(float64x2_t a, float64x2_t b) { return (float64x2x2_t){ { vtrn1q_f64(a, b), vtrn2q_f64(a, b) } }; }
VF float64x2x2_t vzipq_f64(float64x2_t a, float64x2_t b) { return (float64x2x2_t){ { vzip1q_f64(a, b), vzip2q_f64(a, b) } }; }
VF float64x2x2_t vuzpq_f64(float64x2_t a, float64x2_t b) { return (float64x2x2_t){ { vuzp1q_f64(a, b), vuzp2q_f64(a, b) } }; }
#define vgetq_lane_f64(a, l) ((a)[l])
#define vsetq_lane_f64(x, a, l) __extension__({ float64x2_t v_ = (a); v_[l] = (x); v_; })
#define vdupq_lane_f64(a, l) vdupq_n_f64((a)[l])
#define vdupq_laneq_f64(a, l) vdupq_n_f64((a)[l])
#define vmulq_lane_f64(b, c, l) vmulq_f64((b), vdupq_n_f64((c)[l]))
#define vmulq_laneq_f64(b, c, l) vmulq_f64((b), vdupq_n_f64((c)[l]))
#define vmlaq_lane_f64(a, b, c, l) vmlaq_f64((a), (b), vdupq_n_f64((c)[l]))
#define vmlaq_laneq_f64(a, b, c, l) vmlaq_f64((a), (b), vdupq_n_f64((c)[l]))
#define vmlsq_lane_f64(a, b, c, l) vmlsq_f64((a), (b), vdupq_n_f64((c)[l]))
#define vmlsq_laneq_f64(a, b, c, l) vmlsq_f64((a), (b), vdupq_n_f64((c)[l]))
#define vfmaq_lane_f64(a, b, c, l) vfmaq_f64((a), (b), vdupq_n_f64((c)[l]))
#define vfmaq_laneq_f64(a, b, c, l) vfmaq_f64((a), (b), vdupq_n_f64((c)[l]))
#define vfmsq_lane_f64(a, b, c, l) vfmsq_f64((a), (b), vdupq_n_f64((c)[l]))
#define vfmsq_laneq_f64(a, b, c, l) vfmsq_f64((a), (b), vdupq_n_f64((c)[l]))
VF float64x2_t vcombine_f64(float64x1_t a, float64x1_t b) { float64x2_t r; for (int i = 0; i < 1; i++) { r[i] = a[i]; r[i+1] = b[i]; } return r; }
VF float64x1_t vget_low_f64(float64x2_t a) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i]; return r; }
VF float64x1_t vget_high_f64(float64x2_t a) { float64x1_t r; for (int i = 0; i < 1; i++) r[i] = a[i+1]; return r; }
VF float64x1_t vcreate_f64(uint64_t x) { float64x1_t r; memcpy(&r, &x, 8); return r; }
VF int16x8_t vmull_s8(int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)a[i] * (int16_t)b[i]; return r; }
VF int16x8_t vaddl_s8(int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)a[i] + (int16_t)b[i]; return r; }
VF int16x8_t vsubl_s8(int8x8_t a, int8x8_t b) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)((uint16_t)a[i] - (uint16_t)b[i]); return r; }
VF int16x8_t vmovl_s8(int8x8_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
VF int16x8_t vmovl_high_s8(int8x16_t a) { return vmovl_s8(vget_high_s8(a)); }
VF int16x8_t vaddw_s8(int16x8_t a, int8x8_t b) { return vaddq_s16(a, vmovl_s8(b)); }
VF int16x8_t vmlal_s8(int16x8_t a, int8x8_t b, int8x8_t c) { return vaddq_s16(a, vmull_s8(b, c)); }
VF int16x8_t vmlsl_s8(int16x8_t a, int8x8_t b, int8x8_t c) { return vsubq_s16(a, vmull_s8(b, c)); }
VF int16x8_t vmull_high_s8(int8x16_t a, int8x16_t b) { return vmull_s8(vget_high_s8(a), vget_high_s8(b)); }
VF int16x8_t vmlal_high_s8(int16x8_t a, int8x16_t b, int8x16_t c) { return vmlal_s8(a, vget_high_s8(b), vget_high_s8(c)); }
VF int16x8_t vmull_n_s8(int8x8_t a, int8_t b) { return vmull_s8(a, vdup_n_s8(b)); }
VF int16x8_t vmlal_n_s8(int16x8_t a, int8x8_t b, int8_t c) { return vmlal_s8(a, b, vdup_n_s8(c)); }
#define vmull_lane_s8(a, b, l) vmull_s8((a), vdup_n_s8((b)[l]))
#define vmlal_lane_s8(a, b, c, l) vmlal_s8((a), (b), vdup_n_s8((c)[l]))
VF int16x4_t vpaddl_s8(int8x8_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)a[2*i] + (int16_t)a[2*i+1]; return r; }
VF int16x4_t vpadal_s8(int16x4_t a, int8x8_t b) { return vadd_s16(a, vpaddl_s8(b)); }
VF int16_t vaddlv_s8(int8x8_t a) { int16_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
VF int16x8_t vpaddlq_s8(int8x16_t a) { int16x8_t r; for (int i = 0; i < 8; i++) r[i] = (int16_t)a[2*i] + (int16_t)a[2*i+1]; return r; }
VF int16x8_t vpadalq_s8(int16x8_t a, int8x16_t b) { return vaddq_s16(a, vpaddlq_s8(b)); }
VF int16_t vaddlvq_s8(int8x16_t a) { int16_t r = 0; for (int i = 0; i < 16; i++) r += a[i]; return r; }
VF int8x8_t vmovn_s16(int16x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) r[i] = (int8_t)a[i]; return r; }
VF int8x8_t vqmovn_s16(int16x8_t a) { int8x8_t r; for (int i = 0; i < 8; i++) { int16_t lo = -((int16_t)1 << 7), hi = ((int16_t)1 << 7) - 1; r[i] = (int8_t)(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); } return r; }
#define vshrn_n_s16(a, k) vmovn_s16(vf_shrq_s16((a), (k)))
#define vqshrn_n_s16(a, k) vqmovn_s16(vf_shrq_s16((a), (k)))
#define vrshrn_n_s16(a, k) vmovn_s16(vf_rshrq_s16((a), (k)))
#define vqrshrn_n_s16(a, k) vqmovn_s16(vf_rshrq_s16((a), (k)))
#define vshll_n_s8(a, k) vf_shlq_s16(vmovl_s8(a), (k))
VF uint16x8_t vmull_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)a[i] * (uint16_t)b[i]; return r; }
VF uint16x8_t vaddl_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)a[i] + (uint16_t)b[i]; return r; }
VF uint16x8_t vsubl_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)((uint16_t)a[i] - (uint16_t)b[i]); return r; }
VF uint16x8_t vmovl_u8(uint8x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
VF uint16x8_t vmovl_high_u8(uint8x16_t a) { return vmovl_u8(vget_high_u8(a)); }
VF uint16x8_t vaddw_u8(uint16x8_t a, uint8x8_t b) { return vaddq_u16(a, vmovl_u8(b)); }
VF uint16x8_t vmlal_u8(uint16x8_t a, uint8x8_t b, uint8x8_t c) { return vaddq_u16(a, vmull_u8(b, c)); }
VF uint16x8_t vmlsl_u8(uint16x8_t a, uint8x8_t b, uint8x8_t c) { return vsubq_u16(a, vmull_u8(b, c)); }
VF uint16x8_t vmull_high_u8(uint8x16_t a, uint8x16_t b) { return vmull_u8(vget_high_u8(a), vget_high_u8(b)); }
VF uint16x8_t vmlal_high_u8(uint16x8_t a, uint8x16_t b, uint8x16_t c) { return vmlal_u8(a, vget_high_u8(b), vget_high_u8(c)); }
VF uint16x8_t vmull_n_u8(uint8x8_t a, uint8_t b) { return vmull_u8(a, vdup_n_u8(b)); }
VF uint16x8_t vmlal_n_u8(uint16x8_t a, uint8x8_t b, uint8_t c) { return vmlal_u8(a, b, vdup_n_u8(c)); }
#define vmull_lane_u8(a, b, l) vmull_u8((a), vdup_n_u8((b)[l]))
#define vmlal_lane_u8(a, b, c, l) vmlal_u8((a), (b), vdup_n_u8((c)[l]))
VF uint16x4_t vpaddl_u8(uint8x8_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)a[2*i] + (uint16_t)a[2*i+1]; return r; }
VF uint16x4_t vpadal_u8(uint16x4_t a, uint8x8_t b) { return vadd_u16(a, vpaddl_u8(b)); }
VF uint16_t vaddlv_u8(uint8x8_t a) { uint16_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
VF uint16x8_t vpaddlq_u8(uint8x16_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint16_t)a[2*i] + (uint16_t)a[2*i+1]; return r; }
VF uint16x8_t vpadalq_u8(uint16x8_t a, uint8x16_t b) { return vaddq_u16(a, vpaddlq_u8(b)); }
VF uint16_t vaddlvq_u8(uint8x16_t a) { uint16_t r = 0; for (int i = 0; i < 16; i++) r += a[i]; return r; }
VF uint8x8_t vmovn_u16(uint16x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = (uint8_t)a[i]; return r; }
VF uint8x8_t vqmovn_u16(uint16x8_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) { uint16_t lo = 0, hi = ((uint16_t)1 << 8) - 1; r[i] = (uint8_t)(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); } return r; }
#define vshrn_n_u16(a, k) vmovn_u16(vf_shrq_u16((a), (k)))
#define vqshrn_n_u16(a, k) vqmovn_u16(vf_shrq_u16((a), (k)))
#define vrshrn_n_u16(a, k) vmovn_u16(vf_rshrq_u16((a), (k)))
#define vqrshrn_n_u16(a, k) vqmovn_u16(vf_rshrq_u16((a), (k)))
#define vshll_n_u8(a, k) vf_shlq_u16(vmovl_u8(a), (k))
VF int32x4_t vmull_s16(int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)a[i] * (int32_t)b[i]; return r; }
VF int32x4_t vaddl_s16(int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)a[i] + (int32_t)b[i]; return r; }
VF int32x4_t vsubl_s16(int16x4_t a, int16x4_t b) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VF int32x4_t vmovl_s16(int16x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i]; return r; }
VF int32x4_t vmovl_high_s16(int16x8_t a) { return vmovl_s16(vget_high_s16(a)); }
VF int32x4_t vaddw_s16(int32x4_t a, int16x4_t b) { return vaddq_s32(a, vmovl_s16(b)); }
VF int32x4_t vmlal_s16(int32x4_t a, int16x4_t b, int16x4_t c) { return vaddq_s32(a, vmull_s16(b, c)); }
VF int32x4_t vmlsl_s16(int32x4_t a, int16x4_t b, int16x4_t c) { return vsubq_s32(a, vmull_s16(b, c)); }
VF int32x4_t vmull_high_s16(int16x8_t a, int16x8_t b) { return vmull_s16(vget_high_s16(a), vget_high_s16(b)); }
VF int32x4_t vmlal_high_s16(int32x4_t a, int16x8_t b, int16x8_t c) { return vmlal_s16(a, vget_high_s16(b), vget_high_s16(c)); }
VF int32x4_t vmull_n_s16(int16x4_t a, int16_t b) { return vmull_s16(a, vdup_n_s16(b)); }
VF int32x4_t vmlal_n_s16(int32x4_t a, int16x4_t b, int16_t c) { return vmlal_s16(a, b, vdup_n_s16(c)); }
#define vmull_lane_s16(a, b, l) vmull_s16((a), vdup_n_s16((b)[l]))
#define vmlal_lane_s16(a, b, c, l) vmlal_s16((a), (b), vdup_n_s16((c)[l]))
VF int32x2_t vpaddl_s16(int16x4_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)a[2*i] + (int32_t)a[2*i+1]; return r; }
VF int32x2_t vpadal_s16(int32x2_t a, int16x4_t b) { return vadd_s32(a, vpaddl_s16(b)); }
VF int32_t vaddlv_s16(int16x4_t a) { int32_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
VF int32x4_t vpaddlq_s16(int16x8_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = (int32_t)a[2*i] + (int32_t)a[2*i+1]; return r; }
VF int32x4_t vpadalq_s16(int32x4_t a, int16x8_t b) { return vaddq_s32(a, vpaddlq_s16(b)); }
VF int32_t vaddlvq_s16(int16x8_t a) { int32_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
VF int16x4_t vmovn_s32(int32x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)a[i]; return r; }
VF int16x4_t vqmovn_s32(int32x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) { int32_t lo = -((int32_t)1 << 15), hi = ((int32_t)1 << 15) - 1; r[i] = (int16_t)(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); } return r; }
#define vshrn_n_s32(a, k) vmovn_s32(vf_shrq_s32((a), (k)))
#define vqshrn_n_s32(a, k) vqmovn_s32(vf_shrq_s32((a), (k)))
#define vrshrn_n_s32(a, k) vmovn_s32(vf_rshrq_s32((a), (k)))
#define vqrshrn_n_s32(a, k) vqmovn_s32(vf_rshrq_s32((a), (k)))
#define vshll_n_s16(a, k) vf_shlq_s32(vmovl_s16(a), (k))
VF uint32x4_t vmull_u16(uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)a[i] * (uint32_t)b[i]; return r; }
VF uint32x4_t vaddl_u16(uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)a[i] + (uint32_t)b[i]; return r; }
VF uint32x4_t vsubl_u16(uint16x4_t a, uint16x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)((uint32_t)a[i] - (uint32_t)b[i]); return r; }
VF uint32x4_t vmovl_u16(uint16x4_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i]; return r; }
VF uint32x4_t vmovl_high_u16(uint16x8_t a) { return vmovl_u16(vget_high_u16(a)); }
VF uint32x4_t vaddw_u16(uint32x4_t a, uint16x4_t b) { return vaddq_u32(a, vmovl_u16(b)); }
VF uint32x4_t vmlal_u16(uint32x4_t a, uint16x4_t b, uint16x4_t c) { return vaddq_u32(a, vmull_u16(b, c)); }
VF uint32x4_t vmlsl_u16(uint32x4_t a, uint16x4_t b, uint16x4_t c) { return vsubq_u32(a, vmull_u16(b, c)); }
VF uint32x4_t vmull_high_u16(uint16x8_t a, uint16x8_t b) { return vmull_u16(vget_high_u16(a), vget_high_u16(b)); }
VF uint32x4_t vmlal_high_u16(uint32x4_t a, uint16x8_t b, uint16x8_t c) { return vmlal_u16(a, vget_high_u16(b), vget_high_u16(c)); }
VF uint32x4_t vmull_n_u16(uint16x4_t a, uint16_t b) { return vmull_u16(a, vdup_n_u16(b)); }
VF uint32x4_t vmlal_n_u16(uint32x4_t a, uint16x4_t b, uint16_t c) { return vmlal_u16(a, b, vdup_n_u16(c)); }
#define vmull_lane_u16(a, b, l) vmull_u16((a), vdup_n_u16((b)[l]))
#define vmlal_lane_u16(a, b, c, l) vmlal_u16((a), (b), vdup_n_u16((c)[l]))
VF uint32x2_t vpaddl_u16(uint16x4_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)a[2*i] + (uint32_t)a[2*i+1]; return r; }
VF uint32x2_t vpadal_u16(uint32x2_t a, uint16x4_t b) { return vadd_u32(a, vpaddl_u16(b)); }
VF uint32_t vaddlv_u16(uint16x4_t a) { uint32_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
VF uint32x4_t vpaddlq_u16(uint16x8_t a) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint32_t)a[2*i] + (uint32_t)a[2*i+1]; return r; }
VF uint32x4_t vpadalq_u16(uint32x4_t a, uint16x8_t b) { return vaddq_u32(a, vpaddlq_u16(b)); }
VF uint32_t vaddlvq_u16(uint16x8_t a) { uint32_t r = 0; for (int i = 0; i < 8; i++) r += a[i]; return r; }
VF uint16x4_t vmovn_u32(uint32x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) r[i] = (uint16_t)a[i]; return r; }
VF uint16x4_t vqmovn_u32(uint32x4_t a) { uint16x4_t r; for (int i = 0; i < 4; i++) { uint32_t lo = 0, hi = ((uint32_t)1 << 16) - 1; r[i] = (uint16_t)(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); } return r; }
#define vshrn_n_u32(a, k) vmovn_u32(vf_shrq_u32((a), (k)))
#define vqshrn_n_u32(a, k) vqmovn_u32(vf_shrq_u32((a), (k)))
#define vrshrn_n_u32(a, k) vmovn_u32(vf_rshrq_u32((a), (k)))
#define vqrshrn_n_u32(a, k) vqmovn_u32(vf_rshrq_u32((a), (k)))
#define vshll_n_u16(a, k) vf_shlq_u32(vmovl_u16(a), (k))
VF int64x2_t vmull_s32(int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)a[i] * (int64_t)b[i]; return r; }
VF int64x2_t vaddl_s32(int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)a[i] + (int64_t)b[i]; return r; }
VF int64x2_t vsubl_s32(int32x2_t a, int32x2_t b) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VF int64x2_t vmovl_s32(int32x2_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i]; return r; }
VF int64x2_t vmovl_high_s32(int32x4_t a) { return vmovl_s32(vget_high_s32(a)); }
VF int64x2_t vaddw_s32(int64x2_t a, int32x2_t b) { return vaddq_s64(a, vmovl_s32(b)); }
VF int64x2_t vmlal_s32(int64x2_t a, int32x2_t b, int32x2_t c) { return vaddq_s64(a, vmull_s32(b, c)); }
VF int64x2_t vmlsl_s32(int64x2_t a, int32x2_t b, int32x2_t c) { return vsubq_s64(a, vmull_s32(b, c)); }
VF int64x2_t vmull_high_s32(int32x4_t a, int32x4_t b) { return vmull_s32(vget_high_s32(a), vget_high_s32(b)); }
VF int64x2_t vmlal_high_s32(int64x2_t a, int32x4_t b, int32x4_t c) { return vmlal_s32(a, vget_high_s32(b), vget_high_s32(c)); }
VF int64x2_t vmull_n_s32(int32x2_t a, int32_t b) { return vmull_s32(a, vdup_n_s32(b)); }
VF int64x2_t vmlal_n_s32(int64x2_t a, int32x2_t b, int32_t c) { return vmlal_s32(a, b, vdup_n_s32(c)); }
#define vmull_lane_s32(a, b, l) vmull_s32((a), vdup_n_s32((b)[l]))
#define vmlal_lane_s32(a, b, c, l) vmlal_s32((a), (b), vdup_n_s32((c)[l]))
VF int64x1_t vpaddl_s32(int32x2_t a) { int64x1_t r; for (int i = 0; i < 1; i++) r[i] = (int64_t)a[2*i] + (int64_t)a[2*i+1]; return r; }
VF int64x1_t vpadal_s32(int64x1_t a, int32x2_t b) { return vadd_s64(a, vpaddl_s32(b)); }
VF int64_t vaddlv_s32(int32x2_t a) { int64_t r = 0; for (int i = 0; i < 2; i++) r += a[i]; return r; }
VF int64x2_t vpaddlq_s32(int32x4_t a) { int64x2_t r; for (int i = 0; i < 2; i++) r[i] = (int64_t)a[2*i] + (int64_t)a[2*i+1]; return r; }
VF int64x2_t vpadalq_s32(int64x2_t a, int32x4_t b) { return vaddq_s64(a, vpaddlq_s32(b)); }
VF int64_t vaddlvq_s32(int32x4_t a) { int64_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
VF int32x2_t vmovn_s64(int64x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = (int32_t)a[i]; return r; }
VF int32x2_t vqmovn_s64(int64x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) { int64_t lo = -((int64_t)1 << 31), hi = ((int64_t)1 << 31) - 1; r[i] = (int32_t)(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); } return r; }
#define vshrn_n_s64(a, k) vmovn_s64(vf_shrq_s64((a), (k)))
#define vqshrn_n_s64(a, k) vqmovn_s64(vf_shrq_s64((a), (k)))
#define vrshrn_n_s64(a, k) vmovn_s64(vf_rshrq_s64((a), (k)))
#define vqrshrn_n_s64(a, k) vqmovn_s64(vf_rshrq_s64((a), (k)))
#define vshll_n_s32(a, k) vf_shlq_s64(vmovl_s32(a), (k))
VF uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)a[i] * (uint64_t)b[i]; return r; }
VF uint64x2_t vaddl_u32(uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)a[i] + (uint64_t)b[i]; return r; }
VF uint64x2_t vsubl_u32(uint32x2_t a, uint32x2_t b) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)((uint64_t)a[i] - (uint64_t)b[i]); return r; }
VF uint64x2_t vmovl_u32(uint32x2_t a) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i]; return r; }
VF uint64x2_t vmovl_high_u32(uint32x4_t a) { return vmovl_u32(vget_high_u32(a)); }
VF uint64x2_t vaddw_u32(uint64x2_t a, uint32x2_t b) { return vaddq_u64(a, vmovl_u32(b)); }
VF uint64x2_t vmlal_u32(uint64x2_t a, uint32x2_t b, uint32x2_t c) { return vaddq_u64(a, vmull_u32(b, c)); }
VF uint64x2_t vmlsl_u32(uint64x2_t a, uint32x2_t b, uint32x2_t c) { return vsubq_u64(a, vmull_u32(b, c)); }
VF uint64x2_t vmull_high_u32(uint32x4_t a, uint32x4_t b) { return vmull_u32(vget_high_u32(a), vget_high_u32(b)); }
VF uint64x2_t vmlal_high_u32(uint64x2_t a, uint32x4_t b, uint32x4_t c) { return vmlal_u32(a, vget_high_u32(b), vget_high_u32(c)); }
VF uint64x2_t vmull_n_u32(uint32x2_t a, uint32_t b) { return vmull_u32(a, vdup_n_u32(b)); }
VF uint64x2_t vmlal_n_u32(uint64x2_t a, uint32x2_t b, uint32_t c) { return vmlal_u32(a, b, vdup_n_u32(c)); }
#define vmull_lane_u32(a, b, l) vmull_u32((a), vdup_n_u32((b)[l]))
#define vmlal_lane_u32(a, b, c, l) vmlal_u32((a), (b), vdup_n_u32((c)[l]))
VF uint64x1_t vpaddl_u32(uint32x2_t a) { uint64x1_t r; for (int i = 0; i < 1; i++) r[i] = (uint64_t)a[2*i] + (uint64_t)a[2*i+1]; return r; }
VF uint64x1_t vpadal_u32(uint64x1_t a, uint32x2_t b) { return vadd_u64(a, vpaddl_u32(b)); }
VF uint64_t vaddlv_u32(uint32x2_t a) { uint64_t r = 0; for (int i = 0; i < 2; i++) r += a[i]; return r; }
VF uint64x2_t vpaddlq_u32(uint32x4_t a) { uint64x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint64_t)a[2*i] + (uint64_t)a[2*i+1]; return r; }
VF uint64x2_t vpadalq_u32(uint64x2_t a, uint32x4_t b) { return vaddq_u64(a, vpaddlq_u32(b)); }
VF uint64_t vaddlvq_u32(uint32x4_t a) { uint64_t r = 0; for (int i = 0; i < 4; i++) r += a[i]; return r; }
VF uint32x2_t vmovn_u64(uint64x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) r[i] = (uint32_t)a[i]; return r; }
VF uint32x2_t vqmovn_u64(uint64x2_t a) { uint32x2_t r; for (int i = 0; i < 2; i++) { uint64_t lo = 0, hi = ((uint64_t)1 << 32) - 1; r[i] = (uint32_t)(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); } return r; }
#define vshrn_n_u64(a, k) vmovn_u64(vf_shrq_u64((a), (k)))
#define vqshrn_n_u64(a, k) vqmovn_u64(vf_shrq_u64((a), (k)))
#define vrshrn_n_u64(a, k) vmovn_u64(vf_rshrq_u64((a), (k)))
#define vqrshrn_n_u64(a, k) vqmovn_u64(vf_rshrq_u64((a), (k)))
#define vshll_n_u32(a, k) vf_shlq_u64(vmovl_u32(a), (k))
VF float32x2_t vcvt_f32_s32(int32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = (float)a[i]; return r; }
VF float32x2_t vcvt_f32_u32(uint32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = (float)a[i]; return r; }
VF int32x2_t vcvt_s32_f32(float32x2_t a) { int32x2_t r; for (int i = 0; i < 2; i++) r[i] = a[i] >= 2147483648.f ? INT32_MAX : a[i] <= -2147483648.f ? INT32_MIN : a[i] != a[i] ? 0 : (int32_t)a[i]; return r; }
VF float32x2_t vrnd_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_truncf(a[i]); return r; }
VF float32x2_t vrndn_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_rintf(a[i]); return r; }
VF float32x2_t vrndm_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_floorf(a[i]); return r; }
VF float32x2_t vrndp_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_ceilf(a[i]); return r; }
VF float32x2_t vrnda_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_roundf(a[i]); return r; }
VF int32x2_t vcvtn_s32_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_rintf(a[i]); return vcvt_s32_f32(r); }
VF int32x2_t vcvtm_s32_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_floorf(a[i]); return vcvt_s32_f32(r); }
VF int32x2_t vcvtp_s32_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_ceilf(a[i]); return vcvt_s32_f32(r); }
VF int32x2_t vcvta_s32_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_roundf(a[i]); return vcvt_s32_f32(r); }
VF float32x4_t vcvtq_f32_s32(int32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (float)a[i]; return r; }
VF float32x4_t vcvtq_f32_u32(uint32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (float)a[i]; return r; }
VF int32x4_t vcvtq_s32_f32(float32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] >= 2147483648.f ? INT32_MAX : a[i] <= -2147483648.f ? INT32_MIN : a[i] != a[i] ? 0 : (int32_t)a[i]; return r; }
VF float32x4_t vrndq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_truncf(a[i]); return r; }
VF float32x4_t vrndnq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_rintf(a[i]); return r; }
VF float32x4_t vrndmq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_floorf(a[i]); return r; }
VF float32x4_t vrndpq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_ceilf(a[i]); return r; }
VF float32x4_t vrndaq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_roundf(a[i]); return r; }
VF int32x4_t vcvtnq_s32_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_rintf(a[i]); return vcvtq_s32_f32(r); }
VF int32x4_t vcvtmq_s32_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_floorf(a[i]); return vcvtq_s32_f32(r); }
VF int32x4_t vcvtpq_s32_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_ceilf(a[i]); return vcvtq_s32_f32(r); }
VF int32x4_t vcvtaq_s32_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_roundf(a[i]); return vcvtq_s32_f32(r); }
VF float64x2_t vcvt_f64_f32(float32x2_t a) { return (float64x2_t){ a[0], a[1] }; }
VF float32x2_t vcvt_f32_f64(float64x2_t a) { return (float32x2_t){ a[0], a[1] }; }
VF int8x8_t vreinterpret_s8_u8(uint8x8_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_u8(uint8x16_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_s16(int16x4_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_s16(int16x8_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_u16(uint16x4_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_u16(uint16x8_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_s32(int32x2_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_s32(int32x4_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_u32(uint32x2_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_u32(uint32x4_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_s64(int64x1_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_s64(int64x2_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_u64(uint64x1_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_u64(uint64x2_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_f32(float32x2_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_f32(float32x4_t a) { return (int8x16_t)a; }
VF int8x8_t vreinterpret_s8_f64(float64x1_t a) { return (int8x8_t)a; }
VF int8x16_t vreinterpretq_s8_f64(float64x2_t a) { return (int8x16_t)a; }
VF uint8x8_t vreinterpret_u8_s8(int8x8_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_s8(int8x16_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_s16(int16x4_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_s16(int16x8_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_u16(uint16x4_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_u16(uint16x8_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_s32(int32x2_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_s32(int32x4_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_u32(uint32x2_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_u32(uint32x4_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_s64(int64x1_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_s64(int64x2_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_u64(uint64x1_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_u64(uint64x2_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_f32(float32x2_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_f32(float32x4_t a) { return (uint8x16_t)a; }
VF uint8x8_t vreinterpret_u8_f64(float64x1_t a) { return (uint8x8_t)a; }
VF uint8x16_t vreinterpretq_u8_f64(float64x2_t a) { return (uint8x16_t)a; }
VF int16x4_t vreinterpret_s16_s8(int8x8_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_s8(int8x16_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_u8(uint8x8_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_u8(uint8x16_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_u16(uint16x4_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_u16(uint16x8_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_s32(int32x2_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_s32(int32x4_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_u32(uint32x2_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_u32(uint32x4_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_s64(int64x1_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_s64(int64x2_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_u64(uint64x1_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_u64(uint64x2_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_f32(float32x2_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_f32(float32x4_t a) { return (int16x8_t)a; }
VF int16x4_t vreinterpret_s16_f64(float64x1_t a) { return (int16x4_t)a; }
VF int16x8_t vreinterpretq_s16_f64(float64x2_t a) { return (int16x8_t)a; }
VF uint16x4_t vreinterpret_u16_s8(int8x8_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_s8(int8x16_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_u8(uint8x8_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_u8(uint8x16_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_s16(int16x4_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_s16(int16x8_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_s32(int32x2_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_s32(int32x4_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_u32(uint32x2_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_u32(uint32x4_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_s64(int64x1_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_s64(int64x2_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_u64(uint64x1_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_u64(uint64x2_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_f32(float32x2_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_f32(float32x4_t a) { return (uint16x8_t)a; }
VF uint16x4_t vreinterpret_u16_f64(float64x1_t a) { return (uint16x4_t)a; }
VF uint16x8_t vreinterpretq_u16_f64(float64x2_t a) { return (uint16x8_t)a; }
VF int32x2_t vreinterpret_s32_s8(int8x8_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_s8(int8x16_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_u8(uint8x8_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_u8(uint8x16_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_s16(int16x4_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_s16(int16x8_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_u16(uint16x4_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_u16(uint16x8_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_u32(uint32x2_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_s64(int64x1_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_s64(int64x2_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_u64(uint64x1_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_u64(uint64x2_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_f32(float32x2_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return (int32x4_t)a; }
VF int32x2_t vreinterpret_s32_f64(float64x1_t a) { return (int32x2_t)a; }
VF int32x4_t vreinterpretq_s32_f64(float64x2_t a) { return (int32x4_t)a; }
VF uint32x2_t vreinterpret_u32_s8(int8x8_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_s8(int8x16_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_u8(uint8x8_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_u8(uint8x16_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_s16(int16x4_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_s16(int16x8_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_u16(uint16x4_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_u16(uint16x8_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_s32(int32x2_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_s64(int64x1_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_s64(int64x2_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_u64(uint64x1_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_u64(uint64x2_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_f32(float32x2_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
VF uint32x2_t vreinterpret_u32_f64(float64x1_t a) { return (uint32x2_t)a; }
VF uint32x4_t vreinterpretq_u32_f64(float64x2_t a) { return (uint32x4_t)a; }
VF int64x1_t vreinterpret_s64_s8(int8x8_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_s8(int8x16_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_u8(uint8x8_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_u8(uint8x16_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_s16(int16x4_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_s16(int16x8_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_u16(uint16x4_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_u16(uint16x8_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_s32(int32x2_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_s32(int32x4_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_u32(uint32x2_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_u32(uint32x4_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_u64(uint64x1_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_u64(uint64x2_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_f32(float32x2_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_f32(float32x4_t a) { return (int64x2_t)a; }
VF int64x1_t vreinterpret_s64_f64(float64x1_t a) { return (int64x1_t)a; }
VF int64x2_t vreinterpretq_s64_f64(float64x2_t a) { return (int64x2_t)a; }
VF uint64x1_t vreinterpret_u64_s8(int8x8_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_s8(int8x16_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_u8(uint8x8_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_u8(uint8x16_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_s16(int16x4_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_s16(int16x8_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_u16(uint16x4_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_u16(uint16x8_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_s32(int32x2_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_s32(int32x4_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_u32(uint32x2_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_u32(uint32x4_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_s64(int64x1_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_s64(int64x2_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_f32(float32x2_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_f32(float32x4_t a) { return (uint64x2_t)a; }
VF uint64x1_t vreinterpret_u64_f64(float64x1_t a) { return (uint64x1_t)a; }
VF uint64x2_t vreinterpretq_u64_f64(float64x2_t a) { return (uint64x2_t)a; }
VF float32x2_t vreinterpret_f32_s8(int8x8_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_s8(int8x16_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_u8(uint8x8_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_u8(uint8x16_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_s16(int16x4_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_s16(int16x8_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_u16(uint16x4_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_u16(uint16x8_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_s32(int32x2_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_u32(uint32x2_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_s64(int64x1_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_s64(int64x2_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_u64(uint64x1_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_u64(uint64x2_t a) { return (float32x4_t)a; }
VF float32x2_t vreinterpret_f32_f64(float64x1_t a) { return (float32x2_t)a; }
VF float32x4_t vreinterpretq_f32_f64(float64x2_t a) { return (float32x4_t)a; }
VF float64x1_t vreinterpret_f64_s8(int8x8_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_s8(int8x16_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_u8(uint8x8_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_u8(uint8x16_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_s16(int16x4_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_s16(int16x8_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_u16(uint16x4_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_u16(uint16x8_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_s32(int32x2_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_s32(int32x4_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_u32(uint32x2_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_u32(uint32x4_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_s64(int64x1_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_s64(int64x2_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_u64(uint64x1_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_u64(uint64x2_t a) { return (float64x2_t)a; }
VF float64x1_t vreinterpret_f64_f32(float32x2_t a) { return (float64x1_t)a; }
VF float64x2_t vreinterpretq_f64_f32(float32x4_t a) { return (float64x2_t)a; }
