// Shared parts of the workload generators / monitors.
#pragma once
#include <lc3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <chrono>
#include <functional>
#include <memory>
#include "../ref/ref_enc.h"
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && 0)
#define VF_SAN 1
#endif

#ifndef LC3_PLUS
#define LC3_PLUS 1
#endif
#ifndef LC3_PLUS_HR
#define LC3_PLUS_HR 1
#endif
namespace vf {
using ref::Rng; using ref::Cfg;
// the configurations supported by the build
inline bool supported(const Cfg &c) { return (LC3_PLUS || (c.dt_us != 2500 && c.dt_us != 5000)) && (LC3_PLUS_HR || !c.hr); }
inline std::vector<Cfg> cfgs(bool with_pcm) { std::vector<Cfg> o; for (auto &c : ref::all_cfgs(with_pcm)) if (supported(c)) o.push_back(c); return o; }

struct Args { uint64_t seed = 1; int shard = 0, shards = 1; double scale = 1, budget = 60; int only = -1; long frames = 0; std::vector<const char *> rest; bool has(const char *n) const { for (auto r : rest) if (!strcmp(r, n)) return true; return false; } };
inline Args &A() { static Args a; return a; }
// (no container nor string of the compiled part of libstdc++, it is not instrumented by MemorySanitizer)
struct Counter { char k[48]; long n; }; struct Counters { Counter c[200]; int n; };
inline Counters &cnt() { static Counters m; return m; }
struct Seen { std::vector<uint64_t> t; size_t n = 0; Seen() : t(1 << 16) {}
  void add(uint64_t h) { if (!h) h = 1; if (n > 6000000) return; if (2 * n > t.size()) { std::vector<uint64_t> o(t.size() * 4); o.swap(t); for (auto v : o) if (v) put(v); } n += put(h); }
  bool put(uint64_t h) { size_t m = t.size() - 1, i = (h * 0x9e3779b97f4a7c15ull >> 20) & m; while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; } t[i] = h; return true; } };
inline Seen &seen() { static Seen s; return s; }
struct Str { char b[600]; const char *c_str() const { return b; } };
inline std::vector<Str> &samples() { static std::vector<Str> s; return s; }
inline char *ctx() { static char b[1024]; return b; }
inline int &nfail() { static int n; return n; }
inline double now() { static auto t0 = std::chrono::steady_clock::now();
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

inline void context(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(ctx(), 1024, f, a); va_end(a); }
inline Str fmt(const char *f, ...) { Str s; va_list a; va_start(a, f); vsnprintf(s.b, sizeof s.b, f, a); va_end(a); return s; }
inline void count(const char *k, long n = 1) { auto &c = cnt(); int i = 0; while (i < c.n && strcmp(c.c[i].k, k)) i++; if (i == 200) return; if (i == c.n) { snprintf(c.c[i].k, 48, "%s", k); c.n++; } c.c[i].n += n; }
inline void sample(const Str &s) { if (samples().size() < 6) samples().push_back(s); }
inline void sample(const char *s) { sample(fmt("%s", s)); }
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
inline void distinct(uint64_t h) { seen().add(h); }
inline bool timeup() { return now() > A().budget; }
// A violation of the property
inline void fail(const char *f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  if (nfail()++ < 8) printf("FAIL %s | %s\n", b, ctx()); fflush(stdout); }
inline bool toomany() { return nfail() >= 8; }

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void death() { fprintf(stderr, "\nCONTEXT %s\n", ctx()); fflush(stderr); }

inline void init(int ac, char **av) {
  now();
  for (int i = 1; i < ac; i++) { const char *s = av[i]; auto is = [&](const char *n) { return !strcmp(s, n); };
    auto val = [&]() { return i + 1 < ac ? av[++i] : "0"; };
    if (is("--seed")) A().seed = strtoull(val(), 0, 10);
    else if (is("--shard")) { const char *v = val(); A().shard = atoi(v); A().shards = atoi(strchr(v, '/') + 1); }
    else if (is("--scale")) A().scale = atof(val());
    else if (is("--budget")) A().budget = atof(val());
    else if (is("--only")) A().only = atoi(val());
    else A().rest.push_back(s); }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
}
inline void jout(const char *s) { for (; *s; s++) { if (*s == '"' || *s == '\\') putchar('\\'); putchar((unsigned char)*s < 32 ? ' ' : *s); } }
inline int finish() {
  printf("RESULT {\"distinct\": %zu, \"counters\": {", seen().n);
  for (int i = 0; i < cnt().n; i++) printf("%s\"%s\": %ld", i ? ", " : "", cnt().c[i].k, cnt().c[i].n);
  printf("}, \"samples\": [");
  for (size_t i = 0; i < samples().size(); i++) { printf("%s\"", i ? ", " : ""); jout(samples()[i].c_str()); printf("\""); }
  printf("], \"time_up\": %d}\n", timeup()); fflush(stdout);
  return nfail() ? 1 : 0; }

// Round robin of work items on the shards
inline bool mine(long i) { return A().only >= 0 ? i == A().only : i % A().shards == A().shard; }

// ---- Codec instances on exactly sized memory -------------------------------
struct Mem { void *p = nullptr; size_t n = 0;
  explicit Mem(size_t n, int fill = -1) : p(malloc(n ? n : 1)), n(n) { if (fill >= 0) memset(p, fill, n); }
  Mem(const Mem &) = delete; ~Mem() { free(p); } };
struct EncI { Cfg c; Mem m; lc3_encoder_t e;
  explicit EncI(const Cfg &c, int fill = -1) : c(c), m(lc3_hr_encoder_size(c.hr, c.dt_us, c.pcm_hz), fill),
    e(lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz == c.sr_hz ? 0 : c.pcm_hz, m.p)) {} };
struct DecI { Cfg c; Mem m; lc3_decoder_t d;
  explicit DecI(const Cfg &c, int fill = -1) : c(c), m(lc3_hr_decoder_size(c.hr, c.dt_us, c.pcm_hz), fill),
    d(lc3_hr_setup_decoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz == c.sr_hz ? 0 : c.pcm_hz, m.p)) {} };

inline Str name(const Cfg &c) { return fmt("%s%.1fms/%dHz%s", c.hr ? "HR/" : "", c.dt_us / 1000., c.sr_hz,
  c.pcm_hz != c.sr_hz ? fmt("(pcm %dHz)", c.pcm_hz).c_str() : ""); }
inline int fmt_bytes(int f) { static const int b[4] = { 2, 4, 3, 4 }; return b[f]; }
inline const char *fmt_name(int f) { static const char *n[4] = { "s16", "s24", "s24_3le", "float" }; return n[f]; }

// ---- Signals ---------------------------------------------------------------
struct Sig {
  Rng r; double sr; int mode; double f0, ph = 0, amp, ph2 = 0, lp = 0, lp2 = 0, env = 1, dc = 0; long t = 0; int period; double a1, a2, y1 = 0, y2 = 0;
  static const int NMODES = 18;
  Sig(uint64_t seed, double sr, int mode = -1, double amp_ = -1) : r(seed), sr(sr), mode(mode) {
    if (mode < 0) this->mode = r.n(NMODES);
    f0 = 60 * pow(2, r.u() * 4.5); amp = amp_ >= 0 ? amp_ : r.n(3) == 0 ? 1 : pow(10, -4 * r.u() * r.u());
    period = (int)(sr * (0.004 + 0.05 * r.u())); double fr = 200 + r.u() * 2500, q = .97;
    a1 = 2 * q * cos(2 * M_PI * fr / sr); a2 = -q * q; lp = r.u(); }
  double next() {
    double v = 0; t++;
    switch (mode) {
      case 0: case 1: ph += 2 * M_PI * f0 * (1 + (mode ? .01 * sin(t * 30. / sr) : 0)) / sr; for (int h = 1; h < 14 && h * f0 < sr / 2; h++) v += sin(h * ph) / h; v *= .45; break;
      case 2: v = .35 * r.g(); break;
      case 3: ph += 2 * M_PI * f0 * (1 + lp * 40) / sr; v = sin(ph); break;
      case 4: v = (t % (period * 3)) < period / 2 ? .6 * r.g() : 1e-3 * r.g(); break;
      case 5: ph += 2 * M_PI * f0 / sr; v = .5 * sin(ph) + ((t / (4 * period)) & 1 ? .25 * r.g() : 0); break;
      case 6: v = r.n(40) ? 0 : 2 * r.u() - 1; break;
      case 7: { int half = lp < .4 ? 1 + (int)(lp * 20) : std::max(period / 2, 1); if (lp < .4 && r.n(1000) == 0) t++; v = (t / half) & 1 ? 1 : -1; break; }
      case 8: v = r.n(400) ? 0 : (r.n(3) - 1) / 32768.; return v;
      case 9: { double e = t % period == 0 ? 1 : 0; double y = e + a1 * y1 + a2 * y2; y2 = y1; y1 = y; v = ((t / (20 * period)) % 4) == 3 ? .002 * r.g() : y * .3; break; }
      case 10: ph += M_PI * (1 - .06 * lp); v = .9 * sin(ph) + .01 * r.g(); break;
      case 11: lp2 += (.02 + .3 * lp) * (r.g() - lp2); v = lp2; break;
      case 12: ph += M_PI * fmod(t / (sr * 1.5), 1.0); v = .8 * sin(ph); break;
      case 13: if (t % (3 * period) == 1) dc = 2 * r.u() - 1; v = dc + .01 * r.g(); break;
      case 14: v = r.n(2) ? 1 : -1; break;
      case 15: if (t % (8 * period) == 1) env = pow(10, -6 * r.u()); ph += 2 * M_PI * f0 * 3 / sr; v = env * (sin(ph) + .3 * r.g()); break;
      case 16: if (t % (4 * period) == 1) { env = r.n(3) ? 0 : 1; } v = env * .5 * r.g(); break;
      case 17: if (t % (6 * period) == 1) f0 = 60 * pow(2, r.u() * 4.5), env = r.n(4) ? 1 : 0.; ph += 2 * M_PI * f0 / sr; for (int h = 1; h < 6; h++) v += sin(h * ph + h) / h; v *= .5 * env; break;
    }
    v *= amp; return std::min(std::max(v, -1.), 1.); }
};
inline const char *sig_name(int m) { static const char *n[] = { "harmonic", "vibrato", "noise", "tone", "bursts", "tone+noise", "impulses", "square", "lsb", "speech", "near-nyquist", "lowpass", "sweep", "steps", "saturated", "fades", "gated", "notes" }; return n[m]; }

// PCM block of one frame, with the views needed by the monitors
struct Pcm { int f, n; std::vector<uint8_t> b; std::vector<int> x16; std::vector<double> x;
  void make(int fm, int ns, const std::function<double()> &gen) {
    f = fm; n = ns; b.resize((size_t)ns * fmt_bytes(fm)); x16.resize(ns); x.resize(ns);
    for (int i = 0; i < ns; i++) set(i, gen()); }
  void set(int i, double v) {
    if (f == 0) { int s = (int)std::min(std::max(floor(v * 32768 + .5), -32768.), 32767.); int16_t w = s; memcpy(&b[2 * i], &w, 2); x16[i] = s; x[i] = s; }
    else if (f == 1 || f == 2) { int32_t s = (int32_t)std::min(std::max(floor(v * 8388608 + .5), -8388608.), 8388607.); x16[i] = s >> 8; x[i] = s / 256.;
      if (f == 1) memcpy(&b[4 * i], &s, 4); else { b[3 * i] = s; b[3 * i + 1] = s >> 8; b[3 * i + 2] = s >> 16; } }
    else { float w = (float)v; memcpy(&b[4 * i], &w, 4); x[i] = (double)w * 32768; x16[i] = (int)std::min(std::max(trunc(x[i]), -32768.), 32767.); } }
};
// one sample of a decoded buffer, as integer for int formats
inline double get(int f, const uint8_t *p, size_t i) {
  switch (f) { case 0: { int16_t v; memcpy(&v, p + 2 * i, 2); return v; } case 1: { int32_t v; memcpy(&v, p + 4 * i, 4); return v; }
    case 2: { int32_t v = (int32_t)((uint32_t)p[3 * i] << 8 | (uint32_t)p[3 * i + 1] << 16 | (uint32_t)p[3 * i + 2] << 24) >> 8; return v; }
    default: { float v; memcpy(&v, p + 4 * i, 4); return v; } } }

inline int pick_bytes(Rng &r, const Cfg &c) { int lo = c.min_bytes(), hi = c.max_bytes(), k = r.n(10);
  if (k == 0) return lo; if (k == 1) return hi; if (k < 6) return lo + r.n(std::min(80, hi - lo) + 1); return lo + r.n(hi - lo + 1); }

// every accepted size, including the ones below the documented minimum of the high-resolution mode
inline int pick_bytes_any(Rng &r, const Cfg &c) { int lo = lc3_hr_frame_bytes(c.hr, c.dt_us, c.sr_hz, 0);
  return lo >= 20 && lo < c.min_bytes() && r.n(4) == 0 ? (r.n(3) ? lo + r.n(c.min_bytes() - lo) : lo) : pick_bytes(r, c); }

// ---- Hostile frames --------------------------------------------------------
// A syntactically valid frame with extreme / random field values
inline bool random_frame(Rng &r, const Cfg &c, int nbytes, std::vector<uint8_t> &out) {
  ref::Frame f; f.nbytes = nbytes; int sr = c.sr(), ne = c.ne(), dt = c.dt();
  f.bw = ref::nbits_bw(sr) ? r.n(sr + 1) : sr; f.nq = 2 * (1 + r.n(ne / 2)); if (r.n(3) == 0) f.nq = 2 * (1 + r.n(6)); f.lsb = r.n(2);
  f.g_idx = r.n(4) == 0 ? 255 - r.n(3) : r.n(4) ? 60 + r.n(160) : r.n(256);
  f.nfilt = ref::tns_nfilters(dt, f.bw);
  for (int i = 0; i < f.nfilt; i++) { if (r.n(2)) continue; f.order[i] = 1 + r.n(dt <= 1 ? 4 : 8); bool ext = r.n(2);
    for (int k = 0; k < f.order[i]; k++) f.rc[i][k] = ext ? (r.n(2) ? 8 : -8) : r.n(17) - 8; }
  f.pitch = r.n(2); f.ltpf = r.n(4) != 0; f.pidx = r.n(5) == 0 ? 511 - r.n(4) : r.n(512);
  f.lfcb = r.n(32); f.hfcb = r.n(32); f.shape = r.n(4); f.gain = r.n(SNS_NGAINS[f.shape]); f.ls_a = r.n(2); f.ls_b = r.n(2); f.idx_b = r.n(6);
  static const int mx[4] = { 2390004, 2390004, 15158272, 774912 }; f.idx_a = r.n(4) == 0 ? mx[f.shape] - 1 - r.n(3) : r.n(mx[f.shape]);
  f.nf = r.n(8);
  std::vector<int> q(ne + 2, 0); int sty = r.n(6), big = 1 << r.n(c.hr ? 22 : 14);
  for (int i = 0; i < f.nq; i++) { int v = sty == 0 ? 0 : sty == 1 ? r.n(3) - 1 : sty == 2 ? r.n(9) - 4 : sty == 3 ? (r.n(12) ? 0 : r.n(2 * big + 1) - big) : sty == 4 ? (i < 8 ? r.n(2 * big + 1) - big : r.n(3) - 1) : (int)(big * sin(i * .3) / (1 + i)); q[i] = v; }
  int xpos = -1, xlev = 0, xsym = r.n(16); if (r.n(5) == 0) xpos = 2 * r.n(std::min(f.nq / 2, 8)), xlev = r.n(4) ? (c.hr ? 21 : 13) + r.n(4) : 25 + r.n(6);
  for (int t = 0; t < 12; t++) {
    if (xpos >= f.nq) xpos = 0;
    if (ref::write_frame(c, f, q, [&](ref::Writer &w, int left) { for (int i = 0; i < left; i++) w.bits(r.n(2), 1); }, out, xpos, xlev, xsym)) return true;
    f.nq = std::max(2, (f.nq / 4) * 2); if (t > 3) for (int i = 0; i < f.nq; i++) q[i] /= 8; }
  return false; }

enum { H_RANDOM, H_STRUCT, H_FLIP, H_BURST, H_CONST, H_SPLICE, H_LOST, H_VALID, H_TAIL, H_NKIND };
inline const char *hostile_name(int k) { static const char *n[] = { "random", "structured", "bitflip", "burst", "const", "splice", "lost", "valid", "tail" }; return n[k]; }
// Stream of frames, mixing encoder output and corruptions
struct Hostile { Rng r; Cfg c; std::unique_ptr<EncI> e; Sig s; std::vector<uint8_t> prev; int base; Hostile(uint64_t seed, const Cfg &c) : r(seed), c(c), s(seed * 3 + 1, c.sr_hz), base(pick_bytes(r, c)) {
    Cfg ce = c; ce.pcm_hz = c.sr_hz; e.reset(new EncI(ce)); }
  // returns the kind ; lost -> empty data
  int next(std::vector<uint8_t> &d, int nbytes = 0, int kind = -1) {
    if (!nbytes) nbytes = r.n(6) ? base : pick_bytes(r, c);
    if (kind < 0) kind = r.n(H_NKIND);
    d.assign(nbytes, 0);
    auto enc = [&](int nb) { Cfg ce = c; ce.pcm_hz = c.sr_hz; Pcm p; p.make(3, ce.ns(), [&]() { return s.next(); }); d.assign(nb, 0);
      lc3_encode(e->e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, nb, d.data()); };
    switch (kind) {
      case H_RANDOM: for (auto &b : d) b = r.u64() >> 13; if (r.n(2)) { // steer the side data (end of the frame) to be plausible
          if (c.sr() > 0) d[nbytes - 1] &= 0x01; d[nbytes - 2] &= r.u64() >> 20; } break;
      case H_STRUCT: if (!random_frame(r, c, nbytes, d)) kind = H_RANDOM; break;
      case H_FLIP: enc(nbytes); for (int k = 1 + r.n(6); k > 0; k--) { int p = r.n(3) ? nbytes - 1 - r.n(std::min(nbytes, 16)) : r.n(nbytes); d[p] ^= 1 << r.n(8); } break;
      case H_BURST: { enc(nbytes); int p = r.n(nbytes), l = 1 + r.n(nbytes - p); for (int k = p; k < p + l; k++) d[k] = r.u64() >> 9; break; }
      case H_CONST: memset(d.data(), r.n(2) ? 0xff : r.n(2) ? 0x00 : r.n(256), nbytes); break;
      case H_SPLICE: enc(nbytes); if (!prev.empty()) { size_t k = r.n((int)std::min(prev.size(), d.size())); if (r.n(2)) memcpy(d.data(), prev.data(), k); else memcpy(d.data() + d.size() - k, prev.data() + prev.size() - k, k); } break;
      case H_LOST: d.clear(); return kind;
      case H_VALID: enc(nbytes); break;
      case H_TAIL: enc(nbytes); { int k = r.n(nbytes); for (int i = 0; i < k; i++) d[i] = r.n(2) ? 0 : 0xff; } break;
    }
    if ((kind == H_RANDOM || kind == H_FLIP || kind == H_BURST || kind == H_TAIL) && r.n(24) == 0) { static const unsigned v[] = { 0xfffbff, 0xfffc00, 0xfffc01, 0xffffff, 0, 0xff0000, 0x7fffff }; unsigned x = v[r.n(7)]; d[0] = x >> 16, d[1] = x >> 8, d[2] = x; } // limits of the arithmetic code
    prev = d; return kind; }
};
}
