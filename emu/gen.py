#!/usr/bin/env python3
"""Generates arm_neon.h : portable definitions of the NEON intrinsics (semantics of the Arm architecture),
on GCC vector types, for running the NEON code on this machine."""
T = [("s8", "int8_t", 1, "int8"), ("u8", "uint8_t", 1, "uint8"), ("s16", "int16_t", 2, "int16"), ("u16", "uint16_t", 2, "uint16"), ("s32", "int32_t", 4, "int32"), ("u32", "uint32_t", 4, "uint32"),
     ("s64", "int64_t", 8, "int64"), ("u64", "uint64_t", 8, "uint64"), ("f32", "float", 4, "float32"), ("f64", "double", 8, "float64")]
U = {1: "uint8_t", 2: "uint16_t", 4: "uint32_t", 8: "uint64_t"}
BY = {t[0]: t for t in T}
o = []
def w(s): o.append(s)
w("""// Generated by gen.py : NEON intrinsics, emulated
#pragma once
#include <stdint.h>
#include <string.h>
typedef float float32_t; typedef double float64_t;
#define VF static inline __attribute__((unused, always_inline))
""")
def vt(t, q): b, c, n, nm = BY[t]; return "%sx%d_t" % (nm, (16 if q else 8) // n)
def N(t, q): return (16 if q else 8) // BY[t][2]
for s, c, n, nm in T:
    for q in (0, 1):
        w("typedef %s %s __attribute__((vector_size(%d)));" % (c, vt(s, q), 16 if q else 8))
for s, c, n, nm in T:
    for q in (0, 1):
        for k in (2, 3, 4): w("typedef struct { %s val[%d]; } %sx%dx%d_t;" % (vt(s, q), k, nm, N(s, q), k))
def q_(q): return "q" if q else ""
def fn(ret, name, args, body): w("VF %s %s(%s) { %s }" % (ret, name, args, body))
def loop(n, s): return "for (int i = 0; i < %d; i++) %s" % (n, s)
def wrap(t, e):  # integer arithmetic wraps
    return e
for s, c, n, nm in T:
    isf = s[0] == "f"; u = U[n]
    def ar(op, x="a[i]", y="b[i]"):
        return "%s %s %s" % (x, op, y) if isf else "(%s)((%s)%s %s (%s)%s)" % (c, u if n >= 4 else "unsigned", x, op, u if n >= 4 else "unsigned", y)
    for q in (0, 1):
        V = vt(s, q); n_ = N(s, q); Q = q_(q)
        P = "%s%s" % (Q, "_" + s)
        fn(V, "vld1" + P, "const %s *p" % c, "%s r; %s return r;" % (V, loop(n_, "r[i] = p[i];")))
        fn("void", "vst1" + P, "%s *p, %s a" % (c, V), loop(n_, "p[i] = a[i];"))
        fn(V, "vld1%s_dup_%s" % (Q, s), "const %s *p" % c, "%s r; %s return r;" % (V, loop(n_, "r[i] = *p;")))
        w("#define vld1%s_lane_%s(p, v, l) __extension__({ %s v_ = (v); v_[l] = *(p); v_; })" % (Q, s, V))
        w("#define vst1%s_lane_%s(p, v, l) (*(p) = (v)[l])" % (Q, s))
        for k in (2, 3, 4):
            S = "%sx%dx%d_t" % (nm, n_, k)
            fn(S, "vld%d%s" % (k, P), "const %s *p" % c, "%s r; %s return r;" % (S, loop(n_, "for (int k = 0; k < %d; k++) r.val[k][i] = p[%d*i + k];" % (k, k))))
            fn("void", "vst%d%s" % (k, P), "%s *p, %s a" % (c, S), loop(n_, "for (int k = 0; k < %d; k++) p[%d*i + k] = a.val[k][i];" % (k, k)))
            fn(S, "vld1%s_x%d" % (P, k), "const %s *p" % c, "%s r; for (int k = 0; k < %d; k++) r.val[k] = vld1%s(p + k*%d); return r;" % (S, k, P, n_))
        for nn in ("vdup%s_n_%s", "vmov%s_n_%s"): fn(V, nn % (Q, s), "%s x" % c, "%s r; %s return r;" % (V, loop(n_, "r[i] = x;")))
        for nn, op in (("vadd", "+"), ("vsub", "-"), ("vmul", "*")):
            if nn == "vmul" and n == 8 and not isf: continue
            fn(V, nn + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, loop(n_, "r[i] = %s;" % ar(op))))
            fn(V, nn + Q + "_n_" + s, "%s a, %s x" % (V, c), "return %s%s(a, vdup%s_n_%s(x));" % (nn, P, Q, s))
        if isf: fn(V, "vdiv" + P, "%s a, %s b" % (V, V), "return a / b;"); fn(V, "vsqrt" + P, "%s a" % V, "%s r; %s return r;" % (V, loop(n_, "r[i] = __builtin_sqrt%s(a[i]);" % ("f" if n == 4 else ""))))
        if n < 8 or isf:
            fn(V, "vmla" + P, "%s a, %s b, %s c" % (V,)*1 % () if False else "%s a, %s b, %s c" % (V, V, V), "return vadd%s(a, vmul%s(b, c));" % (P, P))
            fn(V, "vmls" + P, "%s a, %s b, %s c" % (V, V, V), "return vsub%s(a, vmul%s(b, c));" % (P, P))
            fn(V, "vmla" + Q + "_n_" + s, "%s a, %s b, %s c" % (V, V, c), "return vmla%s(a, b, vdup%s_n_%s(c));" % (P, Q, s))
            fn(V, "vmls" + Q + "_n_" + s, "%s a, %s b, %s c" % (V, V, c), "return vmls%s(a, b, vdup%s_n_%s(c));" % (P, Q, s))
        if isf:
            x = "(float)((double)b[i] * c[i] + a[i])" if n == 4 else "__builtin_fma(b[i], c[i], a[i])"; y = "(float)(a[i] - (double)b[i] * c[i])" if n == 4 else "__builtin_fma(-b[i], c[i], a[i])"
            fn(V, "vfma" + P, "%s a, %s b, %s c" % (V, V, V), "%s r; %s return r;" % (V, loop(n_, "r[i] = %s;" % x)))
            fn(V, "vfms" + P, "%s a, %s b, %s c" % (V, V, V), "%s r; %s return r;" % (V, loop(n_, "r[i] = %s;" % y)))
            fn(V, "vfma" + Q + "_n_" + s, "%s a, %s b, %s c" % (V, V, c), "return vfma%s(a, b, vdup%s_n_%s(c));" % (P, Q, s))
            fn(V, "vfms" + Q + "_n_" + s, "%s a, %s b, %s c" % (V, V, c), "return vfms%s(a, b, vdup%s_n_%s(c));" % (P, Q, s))
        if s[0] != "u":
            neg = "-a[i]" if isf else "(%s)(0 - (%s)a[i])" % (c, u)
            fn(V, "vneg" + P, "%s a" % V, "%s r; %s return r;" % (V, loop(n_, "r[i] = %s;" % neg)))
            fn(V, "vabs" + P, "%s a" % V, "%s r; %s return r;" % (V, loop(n_, "r[i] = a[i] < 0 ? %s : a[i];" % neg)))
        for nn, op in (("vmax", ">"), ("vmin", "<")): 
            if n < 8 or isf:
                fn(V, nn + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, loop(n_, "r[i] = a[i] %s b[i] ? a[i] : b[i];" % op)))
                if not (n == 8 and not q): fn(c, nn + "v" + P, "%s a" % V, "%s r = a[0]; %s return r;" % (c, "for (int i = 1; i < %d; i++) r = a[i] %s r ? a[i] : r;" % (n_, op)))
        if not isf:
            for nn, op in (("vand", "&"), ("vorr", "|"), ("veor", "^")): fn(V, nn + P, "%s a, %s b" % (V, V), "return a %s b;" % op)
            fn(V, "vbic" + P, "%s a, %s b" % (V, V), "return a & ~b;"); fn(V, "vmvn" + P, "%s a" % V, "return ~a;")
            w("#define vshl%s_n_%s(a, k) vf_shl%s((a), (k))" % (Q, s, P)); fn(V, "vf_shl" + P, "%s a, int k" % V, "%s r; %s return r;" % (V, loop(n_, "r[i] = (%s)((%s)a[i] << k);" % (c, u))))
            w("#define vshr%s_n_%s(a, k) vf_shr%s((a), (k))" % (Q, s, P)); fn(V, "vf_shr" + P, "%s a, int k" % V, "%s r; %s return r;" % (V, loop(n_, "r[i] = k >= %d ? (a[i] < 0 ? -1 : 0) : a[i] >> k;" % (8 * n))))
            w("#define vrshr%s_n_%s(a, k) vf_rshr%s((a), (k))" % (Q, s, P)); fn(V, "vf_rshr" + P, "%s a, int k" % V, "%s r; %s return r;" % (V, loop(n_, "r[i] = (%s)(((__int128)a[i] + ((__int128)1 << (k-1))) >> k);" % c)))
            mn, mx = ("-((__int128)1 << %d)" % (8*n-1), "(((__int128)1 << %d) - 1)" % (8*n-1)) if s[0] == "s" else ("0", "(((__int128)1 << %d) - 1)" % (8*n))
            for nn, op in (("vqadd", "+"), ("vqsub", "-")): fn(V, nn + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, loop(n_, "{ __int128 t = (__int128)a[i] %s b[i]; r[i] = (%s)(t < %s ? %s : t > %s ? %s : t); }" % (op, c, mn, mn, mx, mx))))
            if n < 8:
                fn(V, "vhadd" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, loop(n_, "r[i] = (%s)(((int64_t)a[i] + b[i]) >> 1);" % c)))
                fn(V, "vrhadd" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, loop(n_, "r[i] = (%s)(((int64_t)a[i] + b[i] + 1) >> 1);" % c)))
        if not (n == 8 and not q):
            fn(c, "vaddv" + P, "%s a" % V, "%s r = 0; %s return r;" % (c, loop(n_, "r = %s;" % ar("+", "r", "a[i]"))))
        fn(V, "vpadd" + P, "%s a, %s b" % (V, V), "%s r; for (int i = 0; i < %d; i++) { r[i] = %s; r[i + %d] = %s; } return r;" % (V, n_//2, ar("+", "a[2*i]", "a[2*i+1]"), n_//2, ar("+", "b[2*i]", "b[2*i+1]"))) if n_ > 1 else None
        # comparisons and select
        us = "u%d" % (8 * n); UV = vt(us, q); um = "(%s)-1" % u
        for nn, op in (("vceq", "=="), ("vcgt", ">"), ("vcge", ">="), ("vclt", "<"), ("vcle", "<=")): fn(UV, nn + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (UV, loop(n_, "r[i] = a[i] %s b[i] ? %s : 0;" % (op, um))))
        fn(V, "vbsl" + P, "%s m, %s a, %s b" % (UV, V, V), "return (%s)((m & (%s)a) | (~m & (%s)b));" % (V, UV, UV))
        # permutations
        w("#define vext%s_%s(a, b, k) vf_ext%s((a), (b), (k))" % (Q, s, P)); fn(V, "vf_ext" + P, "%s a, %s b, int k" % (V, V), "%s r; %s return r;" % (V, loop(n_, "r[i] = i + k < %d ? a[(i + k) %% %d] : b[(i + k) %% %d];" % (n_, n_, n_))))
        if n_ > 1:
            h = n_ // 2
            fn(V, "vtrn1" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, "for (int i = 0; i < %d; i++) { r[2*i] = a[2*i]; r[2*i+1] = b[2*i]; }" % h))
            fn(V, "vtrn2" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, "for (int i = 0; i < %d; i++) { r[2*i] = a[2*i+1]; r[2*i+1] = b[2*i+1]; }" % h))
            fn(V, "vzip1" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, "for (int i = 0; i < %d; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; }" % h))
            fn(V, "vzip2" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, "for (int i = 0; i < %d; i++) { r[2*i] = a[i+%d]; r[2*i+1] = b[i+%d]; }" % (h, h, h)))
            fn(V, "vuzp1" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, "for (int i = 0; i < %d; i++) { r[i] = a[2*i]; r[i+%d] = b[2*i]; }" % (h, h)))
            fn(V, "vuzp2" + P, "%s a, %s b" % (V, V), "%s r; %s return r;" % (V, "for (int i = 0; i < %d; i++) { r[i] = a[2*i+1]; r[i+%d] = b[2*i+1]; }" % (h, h)))
            S = "%sx%dx2_t" % (nm, n_)
            for k in ("trn", "zip", "uzp"): fn(S, "v" + k + P, "%s a, %s b" % (V, V), "return (%s){ { v%s1%s(a, b), v%s2%s(a, b) } };" % (S, k, P, k, P))
        for rb in (16, 32, 64):
            if 8 * n < rb: m = rb // 8 // n; fn(V, "vrev%d%s" % (rb, P), "%s a" % V, "%s r; %s return r;" % (V, loop(n_, "r[i] = a[i ^ %d];" % (m - 1))))
        w("#define vget%s_lane_%s(a, l) ((a)[l])" % (Q, s)); w("#define vset%s_lane_%s(x, a, l) __extension__({ %s v_ = (a); v_[l] = (x); v_; })" % (Q, s, V))
        w("#define vdup%s_lane_%s(a, l) vdup%s_n_%s((a)[l])" % (Q, s, Q, s)); w("#define vdup%s_laneq_%s(a, l) vdup%s_n_%s((a)[l])" % (Q, s, Q, s))
        for nn in ("vmul", "vmla", "vmls", "vfma", "vfms"):
            if n == 8 and not isf or nn[:3] == "vfm" and not isf: continue
            for lq in ("lane", "laneq"):
                w("#define %s%s_%s_%s(%sb, c, l) %s%s(%s(b), vdup%s_n_%s((c)[l]))" % (nn, Q, lq, s, "" if nn == "vmul" else "a, ", nn, P, "" if nn == "vmul" else "(a), ", Q, s))
        fn(V, "vcopy_dummy" + P, "%s a" % V, "return a;")
    D, Qv = vt(s, 0), vt(s, 1); d = N(s, 0)
    fn(Qv, "vcombine_" + s, "%s a, %s b" % (D, D), "%s r; for (int i = 0; i < %d; i++) { r[i] = a[i]; r[i+%d] = b[i]; } return r;" % (Qv, d, d))
    fn(D, "vget_low_" + s, "%s a" % Qv, "%s r; %s return r;" % (D, loop(d, "r[i] = a[i];"))); fn(D, "vget_high_" + s, "%s a" % Qv, "%s r; %s return r;" % (D, loop(d, "r[i] = a[i+%d];" % d)))
    fn(D, "vcreate_" + s, "uint64_t x", "%s r; memcpy(&r, &x, 8); return r;" % D)
# widening
for s in ("s8", "u8", "s16", "u16", "s32", "u32"):
    b, c, n, nm = BY[s]; ws = s[0] + str(16 * n); W = vt(ws, 1); wc = BY[ws][1]; uw = U[2*n]; D = vt(s, 0); Q = vt(s, 1); d = N(s, 0)
    fn(W, "vmull_" + s, "%s a, %s b" % (D, D), "%s r; %s return r;" % (W, loop(d, "r[i] = (%s)a[i] * (%s)b[i];" % (wc, wc))))
    fn(W, "vaddl_" + s, "%s a, %s b" % (D, D), "%s r; %s return r;" % (W, loop(d, "r[i] = (%s)a[i] + (%s)b[i];" % (wc, wc))))
    fn(W, "vsubl_" + s, "%s a, %s b" % (D, D), "%s r; %s return r;" % (W, loop(d, "r[i] = (%s)((%s)a[i] - (%s)b[i]);" % (wc, uw, uw))))
    fn(W, "vmovl_" + s, "%s a" % D, "%s r; %s return r;" % (W, loop(d, "r[i] = a[i];"))); fn(W, "vmovl_high_" + s, "%s a" % Q, "return vmovl_%s(vget_high_%s(a));" % (s, s))
    fn(W, "vaddw_" + s, "%s a, %s b" % (W, D), "return vaddq_%s(a, vmovl_%s(b));" % (ws, s))
    fn(W, "vmlal_" + s, "%s a, %s b, %s c" % (W, D, D), "return vaddq_%s(a, vmull_%s(b, c));" % (ws, s)); fn(W, "vmlsl_" + s, "%s a, %s b, %s c" % (W, D, D), "return vsubq_%s(a, vmull_%s(b, c));" % (ws, s))
    fn(W, "vmull_high_" + s, "%s a, %s b" % (Q, Q), "return vmull_%s(vget_high_%s(a), vget_high_%s(b));" % (s, s, s))
    fn(W, "vmlal_high_" + s, "%s a, %s b, %s c" % (W, Q, Q), "return vmlal_%s(a, vget_high_%s(b), vget_high_%s(c));" % (s, s, s))
    fn(W, "vmull_n_" + s, "%s a, %s b" % (D, c), "return vmull_%s(a, vdup_n_%s(b));" % (s, s)); fn(W, "vmlal_n_" + s, "%s a, %s b, %s c" % (W, D, c), "return vmlal_%s(a, b, vdup_n_%s(c));" % (s, s))
    w("#define vmull_lane_%s(a, b, l) vmull_%s((a), vdup_n_%s((b)[l]))" % (s, s, s)); w("#define vmlal_lane_%s(a, b, c, l) vmlal_%s((a), (b), vdup_n_%s((c)[l]))" % (s, s, s))
    for q in (0, 1):
        V = vt(s, q); WV = vt(ws, q); h = N(s, q) // 2; P = q_(q) + "_" + s
        fn(WV, "vpaddl" + P, "%s a" % V, "%s r; %s return r;" % (WV, loop(h, "r[i] = (%s)a[2*i] + (%s)a[2*i+1];" % (wc, wc)))); fn(WV, "vpadal" + P, "%s a, %s b" % (WV, V), "return vadd%s_%s(a, vpaddl%s(b));" % (q_(q), ws, P))
        fn(wc, "vaddlv" + P, "%s a" % V, "%s r = 0; %s return r;" % (wc, loop(2*h, "r += a[i];")))
    # narrowing, from the wide type
    fn(D, "vmovn_" + ws, "%s a" % W, "%s r; %s return r;" % (D, loop(d, "r[i] = (%s)a[i];" % c)))
    mn, mx = ("-((%s)1 << %d)" % (wc, 8*n-1), "((%s)1 << %d) - 1" % (wc, 8*n-1)) if s[0] == "s" else ("0", "((%s)1 << %d) - 1" % (wc, 8*n))
    fn(D, "vqmovn_" + ws, "%s a" % W, "%s r; %s return r;" % (D, loop(d, "{ %s lo = %s, hi = %s; r[i] = (%s)(a[i] < lo ? lo : a[i] > hi ? hi : a[i]); }" % (wc, mn, mx, c))))
    for nn, f in (("vshrn", "vf_shr"), ("vrshrn", "vf_rshr")): w("#define %s_n_%s(a, k) vmovn_%s(%sq_%s((a), (k)))" % (nn, ws, ws, f, ws)); w("#define vq%s_n_%s(a, k) vqmovn_%s(%sq_%s((a), (k)))" % (nn[1:], ws, ws, f, ws))
    w("#define vshll_n_%s(a, k) vf_shlq_%s(vmovl_%s(a), (k))" % (s, ws, s))
# conversions
for q in (0, 1):
    Q = q_(q); F, I, Un = vt("f32", q), vt("s32", q), vt("u32", q); n_ = N("f32", q)
    fn(F, "vcvt%s_f32_s32" % Q, "%s a" % I, "%s r; %s return r;" % (F, loop(n_, "r[i] = (float)a[i];"))); fn(F, "vcvt%s_f32_u32" % Q, "%s a" % Un, "%s r; %s return r;" % (F, loop(n_, "r[i] = (float)a[i];")))
    fn(I, "vcvt%s_s32_f32" % Q, "%s a" % F, "%s r; %s return r;" % (I, loop(n_, "r[i] = a[i] >= 2147483648.f ? INT32_MAX : a[i] <= -2147483648.f ? INT32_MIN : a[i] != a[i] ? 0 : (int32_t)a[i];")))
    for nn, fu in (("vrnd", "trunc"), ("vrndn", "rint"), ("vrndm", "floor"), ("vrndp", "ceil"), ("vrnda", "round")): fn(F, "%s%s_f32" % (nn, Q), "%s a" % F, "%s r; %s return r;" % (F, loop(n_, "r[i] = __builtin_%sf(a[i]);" % fu)))
    for nn, fu in (("vcvtn", "rint"), ("vcvtm", "floor"), ("vcvtp", "ceil"), ("vcvta", "round")): fn(I, "%s%s_s32_f32" % (nn, Q), "%s a" % F, "%s r; %s return vcvt%s_s32_f32(r);" % (F, loop(n_, "r[i] = __builtin_%sf(a[i]);" % fu), Q))
fn("float64x2_t", "vcvt_f64_f32", "float32x2_t a", "return (float64x2_t){ a[0], a[1] };"); fn("float32x2_t", "vcvt_f32_f64", "float64x2_t a", "return (float32x2_t){ a[0], a[1] };")
for a in T:
    for b in T:
        if a[0] != b[0]:
            for q in (0, 1): fn(vt(a[0], q), "vreinterpret%s_%s_%s" % (q_(q), a[0], b[0]), "%s a" % vt(b[0], q), "return (%s)a;" % vt(a[0], q))
open("arm_neon.h", "w").write("\n".join(x for x in o if "vcopy_dummy" not in x) + "\n")
