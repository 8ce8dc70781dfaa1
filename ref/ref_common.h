// Independent reference model of the LC3 / LC3plus codec : syntax, transforms,
// synthesis in double precision.  It shares no code with /repo/src ; only the
// normative data tables were frozen (ref_tables.h).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <complex>
#include <algorithm>
#include <map>
#include <memory>
#include "ref_tables.h"

namespace ref {

struct Cfg {
  bool hr = false; int dt_us = 10000, sr_hz = 48000, pcm_hz = 48000;
  int dt() const { return dt_us / 2500 - 1; }
  static int srx(bool hr, int hz) {
    if (hr) return hz == 48000 ? 5 : 6;
    return hz == 8000 ? 0 : hz == 16000 ? 1 : hz == 24000 ? 2 : hz == 32000 ? 3 : 4; }
  int sr() const { return srx(hr, sr_hz); }
  int srp() const { return srx(hr, pcm_hz); }
  int ns() const { return (int)((int64_t)dt_us * sr_hz / 1000000); }
  int nsp() const { return (int)((int64_t)dt_us * pcm_hz / 1000000); }
  int ne() const { return ne_of(dt(), sr()); }
  // encoded lines : everything up to 20 kHz for 48 kHz, Nyquist otherwise
  static int ne_of(int dt, int sr) {
    static const int base[7] = { 20, 40, 60, 80, 100, 120, 240 };
    return base[sr] * (1 + dt); }
  static int delay2(int dt_us, int hz) {   // overlap part seen by the codec "nd"
    return (int)((int64_t)dt_us * hz / 1000000) / 2 +
           (int)((int64_t)(dt_us == 7500 ? 2000 : 1250) * hz / 1000000); }
  int min_bytes() const { return hr ? lim(0) : 20; }
  int max_bytes() const { return hr ? lim(1) : 400; }
  int lim(int k) const {
    int h = sr_hz == 96000;
    switch (dt_us) {
      case 2500: return k ? 210 : (h ? 62 : 54);
      case 5000: return k ? 375 : (h ? 109 : 93);
      default:   return k ? 625 : (h ? 187 : 156); } }
  bool operator<(const Cfg &o) const {
    return std::tie(hr, dt_us, sr_hz, pcm_hz) < std::tie(o.hr, o.dt_us, o.sr_hz, o.pcm_hz); }
};

inline std::vector<Cfg> all_cfgs(bool with_pcm) {
  std::vector<Cfg> v;
  static const int S[5] = { 8000, 16000, 24000, 32000, 48000 };
  for (int dt = 2500; dt <= 10000; dt += 2500) {
    for (int s : S) for (int p : S)
      if (p == s || (with_pcm && p > s)) v.push_back({ false, dt, s, p });
    if (dt != 7500) for (int s = 48000; s <= 96000; s += 48000)
      for (int p = s; p <= 96000; p += 48000)
        if (p == s || with_pcm) v.push_back({ true, dt, s, p });
  }
  return v;
}

inline int quant_gain_offset(int sr, int nbytes) {
  int fs_ind = sr >= 5 ? sr - 1 : sr;                 // 48 HR -> 4, 96 HR -> 5
  int v = std::min(115, 8 * nbytes / (10 * (fs_ind + 1))) + 105 + 5 * (fs_ind + 1);
  return std::min(v, sr == 6 ? 181 : 255);
}
inline bool high_rate(int sr, int nbytes) {
  int fs_ind = sr >= 5 ? sr - 1 : sr;
  return sr != 6 && nbytes * 8 > 160 * (1 + fs_ind); }
inline bool lsb_allowed(int sr, int nbytes) {
  int fs_ind = sr >= 5 ? sr - 1 : sr;
  return sr != 6 && nbytes * 8 >= 160 * (3 + fs_ind); }
inline int nbits_bw(int sr) { static const int t[7] = { 0, 1, 2, 2, 3, 0, 0 }; return t[sr]; }
inline int nbits_lastnz(int ne) { int n = 0; while ((1 << n) < ne / 2) n++; return n; }
inline int tns_nfilters(int dt, int bw) { return dt >= 1 && bw >= 3 ? 2 : 1; }
inline bool tns_weighting(int dt, int nbytes) { return nbytes * 8 < 120 * (1 + dt); }

// ---- complex FFT (any n = 2^a 3^b 5^c), double precision -------------------
typedef std::complex<double> cd;
struct Fft {
  int n; std::vector<cd> w;
  explicit Fft(int n) : n(n), w(n) {
    for (int i = 0; i < n; i++) w[i] = std::polar(1.0, -2 * M_PI * i / n); }
  void rec(const cd *x, int stride, int m, cd *y) const {
    if (m == 1) { y[0] = x[0]; return; }
    int r = m % 2 == 0 ? 2 : m % 3 == 0 ? 3 : 5, q = m / r, ws = n / m;
    for (int j = 0; j < r; j++) rec(x + j * stride, stride * r, q, y + j * q);
    cd t[5];
    for (int k = 0; k < q; k++) {
      for (int j = 0; j < r; j++) t[j] = y[j * q + k] * w[(j * k * ws) % n];
      for (int p = 0; p < r; p++) {
        cd s = 0;
        for (int j = 0; j < r; j++) s += t[j] * w[(int)(((int64_t)j * p * q) % m) * ws % n];
        y[p * q + k] = s;
      }
    }
  }
};
// DCT-IV of size N : X[k] = sum x[n] cos(pi/N (n+1/2)(k+1/2))
struct Dct4 {
  int N; Fft f; std::vector<cd> tw, tp;
  explicit Dct4(int N) : N(N), f(N / 2), tw(N / 2), tp(N / 2) {
    for (int i = 0; i < N / 2; i++) { tw[i] = std::polar(1.0, -M_PI * (i + 0.25) / N); tp[i] = std::polar(1.0, -M_PI * i / N); } }
  void run(const double *x, double *y) const {
    int h = N / 2; std::vector<cd> a(h), b(h);
    for (int i = 0; i < h; i++) a[i] = cd(x[2 * i], x[N - 1 - 2 * i]) * tw[i];
    f.rec(a.data(), 1, h, b.data());
    for (int i = 0; i < h; i++) { cd c = b[i] * tp[i]; y[2 * i] = c.real(); y[N - 1 - 2 * i] = -c.imag(); }
  }
  static const Dct4 &get(int N) {
    static thread_local std::map<int, std::unique_ptr<Dct4>> m;
    auto &p = m[N]; if (!p) p.reset(new Dct4(N)); return *p; }
};

// MDCT of the 2N block t -> N lines (orthonormal), and its inverse
inline void mdct(const double *t, int N, double *X) {
  std::vector<double> u(N); int h = N / 2;
  for (int n = 0; n < h; n++) {
    u[n] = -t[3 * h - 1 - n] - t[3 * h + n];
    u[h + n] = t[n] - t[N - 1 - n];
  }
  Dct4::get(N).run(u.data(), X);
  double s = sqrt(2.0 / N);
  for (int k = 0; k < N; k++) X[k] *= s;
}
inline void imdct(const double *X, int N, double *t) {
  std::vector<double> u(N); int h = N / 2;
  Dct4::get(N).run(X, u.data());
  double s = sqrt(2.0 / N);
  for (int n = 0; n < h; n++) {
    t[n] = u[h + n] * s;            t[N - 1 - n] = -u[h + n] * s;
    t[3 * h - 1 - n] = -u[n] * s;   t[3 * h + n] = -u[n] * s;
  }
}

// ---- DCT-16 (orthonormal, type II / III) -----------------------------------
struct Dct16 { double m[16][16]; Dct16() {
  for (int n = 0; n < 16; n++) for (int k = 0; k < 16; k++)
    m[n][k] = sqrt((k ? 2.0 : 1.0) / 16) * cos(M_PI * k * (2 * n + 1) / 32); } };
inline const Dct16 &dct16() { static Dct16 d; return d; }

// ---- SNS -------------------------------------------------------------------
inline void sns_scf(int lfcb, int hfcb, const double c[16], double g, double scf[16]) {
  const auto &d = dct16();
  for (int n = 0; n < 16; n++) {
    double v = 0; for (int k = 0; k < 16; k++) v += c[k] * d.m[n][k];
    scf[n] = (n < 8 ? SNS_LFCB[lfcb][n] : SNS_HFCB[hfcb][n - 8]) + g * v;
  }
}
// band-wise gains exponent (log2) from 16 scale factors
inline std::vector<double> sns_interp(int dt, int sr, const double scf[16]) {
  double s[64]; s[0] = s[1] = scf[0];
  for (int n = 0; n < 15; n++) for (int j = 0; j < 4; j++)
    s[4 * n + 2 + j] = scf[n] + (2 * j + 1) / 8.0 * (scf[n + 1] - scf[n]);
  s[62] = scf[15] + (scf[15] - scf[14]) / 8;
  s[63] = scf[15] + (scf[15] - scf[14]) * 3 / 8;
  int nb = NUM_BANDS[dt][sr];
  std::vector<double> o; int i = 0;
  if (nb < 32) {
    int n4 = 32 % nb, n2 = nb - n4;      // 4*n4 + 2*n2 bands
    for (int k = 0; k < n4; k++, i += 4) o.push_back((s[i] + s[i+1] + s[i+2] + s[i+3]) / 4);
    for (int k = 0; k < n2; k++, i += 2) o.push_back((s[i] + s[i+1]) / 2);
  } else {
    for (int k = 0; k < 64 - nb; k++, i += 2) o.push_back((s[i] + s[i+1]) / 2);
    for (; i < 64; i++) o.push_back(s[i]);
  }
  return o;
}

// MPVQ indexing, after the definition: positions scanned from the end,
// A(n,k) counts via the offsets table
inline int mpvq_deenum(int dim, int k, bool sign, int idx, int *c) {
  for (int i = 0; i < dim; i++) c[i] = 0;
  int pos = 0;
  for (int rem = dim - 1; rem >= 0; rem--, pos++) {
    if (idx == 0) { c[pos] = sign ? -k : k; return 0; }   // all remaining pulses here
    int left = k, off = SNS_MPVQ[rem][left];
    while (idx < off) { left--; if (left < 0) return -1; off = SNS_MPVQ[rem][left]; }
    idx -= off;
    int amp = k - left; 
    if (amp > 0) { c[pos] = sign ? -amp : amp; k = left; sign = idx & 1; idx >>= 1; }
    if (k == 0) return idx == 0 ? 0 : -1;
  }
  return 0;
}
inline void mpvq_enum(const int *c, int dim, int *idx, bool *sign) {
  int64_t ix = 0; int k = 0; bool s = false, have = false;
  for (int pos = dim - 1, n = 0; pos >= 0; pos--, n++) {
    int a = std::abs(c[pos]);
    if (a) { if (have) ix = 2 * ix + s; s = c[pos] < 0; have = true; }
    ix += SNS_MPVQ[n][std::min(k, 10)];
    k += a;
  }
  *idx = (int)ix; *sign = s;
}

// ---- Frame syntax ----------------------------------------------------------
struct Frame {
  int err = 0;                 // 0 : valid ; otherwise the reason
  int nbytes = 0;
  int bw = 0, nq = 0, lsb = 0, g_idx = 0, nf = 0;
  int nfilt = 0, order[2] = { 0, 0 }, rc[2][8] = {{0}};
  bool pitch = false, ltpf = false; int pidx = 0;
  int lfcb = 0, hfcb = 0, shape = 0, gain = 0, idx_a = 0, idx_b = 0; bool ls_a = 0, ls_b = 0;
  std::vector<int> q;          // MSB/LSB integers as read (before residual / lsb step)
  std::vector<int> qf;         // integers after the LSB step
  std::vector<double> xq;      // values including the residual
  int lsb_trunc = -1;          // line whose sign was cut by the end of the LSB bits
  int lsb_end = 1 << 30;       // first line without transmitted LSB
  int res_bits = 0;            // number of bits left for residual / lsb
  uint16_t seed = 0;
  std::vector<uint8_t> rb;     // residual / lsb bits, in stream order
  int plain_bits = 0, ac_bits = 0, max_esc = 0;
};
enum { E_BW = 1, E_LASTNZ, E_TNS, E_SNS, E_ESC, E_BITS, E_AC };

struct Reader {
  const uint8_t *d; int n;
  int pos_bits = 0;            // plain bits read, from the end
  int fw = 0;                  // bytes fetched by the AC
  uint32_t low = 0, range = 0xffffff; bool bad = false;
  Reader(const uint8_t *d, int n) : d(d), n(n) { for (int i = 0; i < 3; i++) low = low << 8 | next(); }
  uint32_t next() { uint32_t v = fw < n ? d[fw] : 0; fw++; return v; }
  int bit() { int by = n - 1 - (pos_bits >> 3), b = 0;
    if (by >= 0) b = d[by] >> (pos_bits & 7) & 1;
    pos_bits++; return b; }
  unsigned bits(int k) { unsigned v = 0; for (int i = 0; i < k; i++) v |= (unsigned)bit() << i; return v; }
  int sym(const uint16_t (*m)[2]) {
    uint32_t r = range >> 10;
    if (low >= r << 10) bad = true;
    if (bad) low = 0;
    int s = 16; while (s > 0 && low < r * m[s][0]) s--;
    low -= r * m[s][0]; range = r * m[s][1];
    while (range < 0x10000) { range <<= 8; low = (low << 8 | next()) & 0xffffff; }
    return s; }
  int ac_bits() const { int l = 0; while ((range >> (l + 1)) != 0) l++; return 8 * (fw - 3) + 25 - l; }
  int left() const { return 8 * n - pos_bits - ac_bits(); }
};

inline Frame parse(const Cfg &c, const uint8_t *data, int nbytes) {
  Frame f; f.nbytes = nbytes;
  int dt = c.dt(), sr = c.sr(), ne = c.ne();
  Reader r(data, nbytes);
  if (nbits_bw(sr)) { f.bw = r.bits(nbits_bw(sr)); if (f.bw > sr) { f.err = E_BW; return f; } }
  else f.bw = sr;
  f.nq = 2 * (r.bits(nbits_lastnz(ne)) + 1); f.lsb = r.bit(); f.g_idx = r.bits(8);
  if (f.nq > ne) { f.err = E_LASTNZ; return f; }
  f.nfilt = tns_nfilters(dt, f.bw);
  for (int i = 0; i < f.nfilt; i++) {
    if (!r.bit()) continue;
    f.order[i] = 1 + r.sym(TNS_ORDER_M[tns_weighting(dt, nbytes)]);
    if (dt <= 1 && f.order[i] > 4) { f.err = E_TNS; return f; }
    for (int k = 0; k < f.order[i]; k++) f.rc[i][k] = r.sym(TNS_COEF_M[k]) - 8;
  }
  f.pitch = r.bit();
  f.lfcb = r.bits(5); f.hfcb = r.bits(5);
  int msb = r.bit();
  f.gain = r.bits(msb ? 2 : 1); f.ls_a = r.bit();
  int mux = r.bits(msb ? 24 : 25);
  if (!msb) {
    if (mux >= 14 * 2390004) { f.err = E_SNS; return f; }
    int hi = mux / 2390004; f.idx_a = mux % 2390004;
    if (hi < 2) { f.shape = 1; f.gain = 2 * f.gain + hi; }
    else { f.shape = 0; f.idx_b = (hi - 2) >> 1; f.ls_b = (hi - 2) & 1; }
  } else {
    if (mux >= 15158272 + 1549824) { f.err = E_SNS; return f; }
    if (mux < 15158272) { f.shape = 2; f.idx_a = mux; }
    else { mux -= 15158272; f.shape = 3; f.idx_a = mux >> 1; f.gain = 2 * f.gain + (mux & 1); }
  }
  if (f.pitch) { f.ltpf = r.bit(); f.pidx = r.bits(9); }
  f.nf = r.bits(3);
  // spectrum
  f.q.assign(ne, 0);
  bool hi = high_rate(sr, nbytes);
  unsigned st = 0; int max_esc = c.hr ? 22 : 14;
  for (int i = 0; i < f.nq; i += 2) {
    const uint8_t *lut = SPEC_LUT[hi][i < (ne + 2) / 2 ? 0 : 1][st & 255];
    int lev = 0; int a = 0, b = 0, s;
    for (;; lev++) {
      s = r.sym(SPEC_M[lut[std::min(lev, 3)]]);
      if (s < 16 || lev >= max_esc) break;
      if (lev > 0 || !f.lsb) { a |= r.bit() << lev; b |= r.bit() << lev; }
    }
    f.max_esc = std::max(f.max_esc, lev);
    if (s == 16) { f.err = E_ESC; return f; }
    int ma = s & 3, mb = s >> 2;
    a |= ma << lev; b |= mb << lev;
    bool na = a && r.bit(), nb_ = b && r.bit();
    f.q[i] = na ? -a : a; f.q[i + 1] = nb_ ? -b : b;
    f.seed += (uint16_t)((a & 0x7fff) * i + (b & 0x7fff) * (i + 1));
    int l3 = std::min(lev, 3);
    unsigned t = l3 <= 1 ? 1 + (ma + mb) * (l3 + 1) : 12 + l3;
    st = (st << 4) + t;
  }
  f.qf = f.q; f.ac_bits = r.ac_bits();
  int left = std::max(r.left(), 0); f.res_bits = left;
  f.xq.assign(ne, 0);
  if (f.lsb) {
    bool stop = false;
    auto get = [&](int &b) { if (left <= 0) { stop = true; return false; } left--; b = r.bit(); f.rb.push_back(b); return true; };
    for (int i = 0; i < f.nq && !stop && left > 0; i += 2) {
      if (std::max(std::abs(f.q[i]), std::abs(f.q[i + 1])) < 4) continue;
      f.lsb_end = i + 2;
      for (int k = 0; k < 2 && !stop; k++) {
        int b; if (!get(b)) { f.lsb_end = i + k; break; }
        if (!b) continue;
        int &v = f.qf[i + k];
        if (v) { v += v < 0 ? -1 : 1; f.seed += i + k; }
        else { int sgn; if (!get(sgn)) { f.lsb_trunc = i + k; f.lsb_end = i + k + 1; break; } v = sgn ? -1 : 1; f.seed += i + k; }
      }
    }
    for (int i = 0; i < ne; i++) f.xq[i] = f.qf[i];
  } else {
    for (int i = 0; i < ne; i++) f.xq[i] = f.q[i];
    double up = c.hr ? .25 : 5. / 16, dn = c.hr ? .25 : 3. / 16;
    for (int it = 0; it < (c.hr ? 20 : 1) && left > 0; it++, up /= 2, dn /= 2)
      for (int i = 0; i < f.nq && left > 0; i++) {
        if (f.q[i] == 0) continue;
        left--;
        // magnitude grows by `up`, shrinks by `dn`
        bool b = r.bit(); f.rb.push_back(b); bool pos = f.q[i] > 0;
        if (b) f.xq[i] += pos ? up : dn; else f.xq[i] -= pos ? dn : up;
      }
  }
  f.plain_bits = r.pos_bits;
  if (r.bad) f.err = E_AC;
  if (r.left() < 0) f.err = E_BITS;
  return f;
}
}
