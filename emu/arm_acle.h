// Intrinsics of the Arm C Language Extensions, emulated
#pragma once
#include <stdint.h>
#define VF_A static inline __attribute__((unused, always_inline))
typedef int32_t int16x2_t; typedef uint32_t uint16x2_t; typedef int32_t int8x4_t; typedef uint32_t uint8x4_t;
#define VF_LO(a) ((int32_t)(int16_t)(a))
#define VF_HI(a) ((int32_t)(int16_t)((uint32_t)(a) >> 16))
VF_A int32_t vf_add(int32_t a, int32_t b) { return (int32_t)((uint32_t)a + (uint32_t)b); }
VF_A int64_t vf_add64(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }
VF_A int32_t vf_sat(int64_t v, int n) { int64_t m = ((int64_t)1 << (n - 1)) - 1; return (int32_t)(v > m ? m : v < -m - 1 ? -m - 1 : v); }
VF_A int32_t vf_pk(int32_t lo, int32_t hi) { return (int32_t)(((uint32_t)lo & 0xffff) | (uint32_t)hi << 16); }
VF_A int32_t __smuad(int16x2_t a, int16x2_t b) { return vf_add(VF_LO(a) * VF_LO(b), VF_HI(a) * VF_HI(b)); }
VF_A int32_t __smuadx(int16x2_t a, int16x2_t b) { return vf_add(VF_LO(a) * VF_HI(b), VF_HI(a) * VF_LO(b)); }
VF_A int32_t __smusd(int16x2_t a, int16x2_t b) { return VF_LO(a) * VF_LO(b) - VF_HI(a) * VF_HI(b); }
VF_A int32_t __smusdx(int16x2_t a, int16x2_t b) { return VF_LO(a) * VF_HI(b) - VF_HI(a) * VF_LO(b); }
VF_A int32_t __smlad(int16x2_t a, int16x2_t b, int32_t u) { return vf_add(__smuad(a, b), u); }
VF_A int32_t __smladx(int16x2_t a, int16x2_t b, int32_t u) { return vf_add(__smuadx(a, b), u); }
VF_A int32_t __smlsd(int16x2_t a, int16x2_t b, int32_t u) { return vf_add(__smusd(a, b), u); }
VF_A int32_t __smlsdx(int16x2_t a, int16x2_t b, int32_t u) { return vf_add(__smusdx(a, b), u); }
VF_A int64_t __smlald(int16x2_t a, int16x2_t b, int64_t u) { return vf_add64(u, (int64_t)VF_LO(a) * VF_LO(b) + (int64_t)VF_HI(a) * VF_HI(b)); }
VF_A int64_t __smlaldx(int16x2_t a, int16x2_t b, int64_t u) { return vf_add64(u, (int64_t)VF_LO(a) * VF_HI(b) + (int64_t)VF_HI(a) * VF_LO(b)); }
VF_A int64_t __smlsld(int16x2_t a, int16x2_t b, int64_t u) { return vf_add64(u, __smusd(a, b)); }
VF_A int64_t __smlsldx(int16x2_t a, int16x2_t b, int64_t u) { return vf_add64(u, __smusdx(a, b)); }
VF_A int32_t __smulbb(int32_t a, int32_t b) { return VF_LO(a) * VF_LO(b); }
VF_A int32_t __smulbt(int32_t a, int32_t b) { return VF_LO(a) * VF_HI(b); }
VF_A int32_t __smultb(int32_t a, int32_t b) { return VF_HI(a) * VF_LO(b); }
VF_A int32_t __smultt(int32_t a, int32_t b) { return VF_HI(a) * VF_HI(b); }
VF_A int32_t __smulwb(int32_t a, int32_t b) { return (int32_t)((int64_t)a * VF_LO(b) >> 16); }
VF_A int32_t __smulwt(int32_t a, int32_t b) { return (int32_t)((int64_t)a * VF_HI(b) >> 16); }
VF_A int32_t __smlabb(int32_t a, int32_t b, int32_t u) { return vf_add(__smulbb(a, b), u); }
VF_A int32_t __smlabt(int32_t a, int32_t b, int32_t u) { return vf_add(__smulbt(a, b), u); }
VF_A int32_t __smlatb(int32_t a, int32_t b, int32_t u) { return vf_add(__smultb(a, b), u); }
VF_A int32_t __smlatt(int32_t a, int32_t b, int32_t u) { return vf_add(__smultt(a, b), u); }
VF_A int32_t __smlawb(int32_t a, int32_t b, int32_t u) { return vf_add(__smulwb(a, b), u); }
VF_A int32_t __smlawt(int32_t a, int32_t b, int32_t u) { return vf_add(__smulwt(a, b), u); }
VF_A int32_t __qadd(int32_t a, int32_t b) { return vf_sat((int64_t)a + b, 32); }
VF_A int32_t __qsub(int32_t a, int32_t b) { return vf_sat((int64_t)a - b, 32); }
VF_A int32_t __qdbl(int32_t a) { return vf_sat((int64_t)a * 2, 32); }
VF_A int16x2_t __qadd16(int16x2_t a, int16x2_t b) { return vf_pk(vf_sat(VF_LO(a) + VF_LO(b), 16), vf_sat(VF_HI(a) + VF_HI(b), 16)); }
VF_A int16x2_t __qsub16(int16x2_t a, int16x2_t b) { return vf_pk(vf_sat(VF_LO(a) - VF_LO(b), 16), vf_sat(VF_HI(a) - VF_HI(b), 16)); }
VF_A int16x2_t __sadd16(int16x2_t a, int16x2_t b) { return vf_pk(VF_LO(a) + VF_LO(b), VF_HI(a) + VF_HI(b)); }
VF_A int16x2_t __ssub16(int16x2_t a, int16x2_t b) { return vf_pk(VF_LO(a) - VF_LO(b), VF_HI(a) - VF_HI(b)); }
VF_A int16x2_t __shadd16(int16x2_t a, int16x2_t b) { return vf_pk((VF_LO(a) + VF_LO(b)) >> 1, (VF_HI(a) + VF_HI(b)) >> 1); }
VF_A int32_t __ssat(int32_t v, int n) { return vf_sat(v, n); }
VF_A uint32_t __usat(int32_t v, int n) { int64_t m = ((int64_t)1 << n) - 1; return (uint32_t)(v < 0 ? 0 : v > m ? m : v); }
VF_A int16x2_t __ssat16(int16x2_t v, int n) { return vf_pk(vf_sat(VF_LO(v), n), vf_sat(VF_HI(v), n)); }
VF_A uint32_t __clz(uint32_t v) { return v ? __builtin_clz(v) : 32; }
VF_A uint32_t __ror(uint32_t v, uint32_t n) { n &= 31; return n ? v >> n | v << (32 - n) : v; }
VF_A uint32_t __rev(uint32_t v) { return __builtin_bswap32(v); }
VF_A uint32_t __rbit(uint32_t v) { uint32_t r = 0; for (int i = 0; i < 32; i++) r |= (v >> i & 1) << (31 - i); return r; }
