// Reference encoder, as an "explaining" monitor : it follows the stream that
// the encoder under test produced, and decides for every coded field whether
// it is what the specified analysis (in double precision) gives on this input
// and history.  A field is only reported when the specified decision is well
// conditioned : re-running the stage with perturbed inputs never produces the
// observed value.
#pragma once
#include "ref_common.h"
#include "ref_dec.h"
#include <random>
#include <set>
#include <map>
#include <string>
#include <cstdarg>
namespace ref {

struct Rng { uint64_t s; explicit Rng(uint64_t s = 1) : s(s) {}
  uint64_t u64() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
  double u() { return (u64() >> 11) * 0x1p-53; }
  int n(int k) { return (int)(u64() % (uint64_t)k); }
  double g() { double a = u() + 1e-300, b = u(); return sqrt(-2 * log(a)) * cos(2 * M_PI * b); } };

// ---- Writer ----------------------------------------------------------------
struct Writer {
  int n; std::vector<uint8_t> plain;      // plain bits, in order
  std::vector<uint8_t> ac; uint32_t low = 0, range = 0xffffff;
  explicit Writer(int n) : n(n) {}
  void bits(unsigned v, int k) { for (int i = 0; i < k; i++) plain.push_back(v >> i & 1); }
  void carry() { for (int i = (int)ac.size() - 1; i >= 0; i--) if (++ac[i]) break; }
  void shift() { ac.push_back(low >> 16); low = (low << 8) & 0xffffff; }
  void sym(const uint16_t (*m)[2], int s) {
    uint32_t r = range >> 10; low += r * m[s][0]; range = r * m[s][1];
    if (low >> 24) { carry(); low &= 0xffffff; }
    while (range < 0x10000) { range <<= 8; shift(); } }
  int ac_bits() const { int l = 0; while ((range >> (l + 1)) != 0) l++; return 8 * (int)ac.size() + 25 - l; }
  int left() const { return 8 * n - (int)plain.size() - ac_bits(); }
  bool finish(std::vector<uint8_t> &out) {
    bool ok = left() >= 0;
    int bits = 1; while ((range >> (24 - bits)) == 0) bits++;
    uint32_t mask = 0xffffff >> bits, val = low + mask, high = low + range;
    bool o1 = val >> 24, o2 = high >> 24; high &= 0xffffff; val = (val & 0xffffff) & ~mask;
    if (o1 == o2) {
      if (val + mask >= high) { bits++; mask >>= 1; val = ((low + mask) & 0xffffff) & ~mask; }
      if (val < low) carry();
    } else if (o1) carry();
    uint64_t v = val; std::vector<uint8_t> fb;
    for (const uint8_t &b : ac) for (int i = 7; i >= 0; i--) fb.push_back(b >> i & 1);
    for (int i = 0; i < bits; i++) fb.push_back(i < 24 ? v >> (23 - i) & 1 : 0);
    out.assign(n, 0);
    for (size_t i = 0; i < plain.size() && i < (size_t)8 * n; i++) if (plain[i]) out[n - 1 - i / 8] |= 1 << (i % 8);
    for (size_t i = 0; i < fb.size() && i < (size_t)8 * n; i++) {
      if (fb[i]) out[i / 8] |= 0x80 >> (i % 8); else out[i / 8] &= ~(0x80 >> (i % 8)); }
    return ok; }
};

// cost (x 2048) and coding of the spectrum
struct SpecCost { int nq, nbits; bool lsb; };
inline SpecCost spec_cost(const Cfg &c, int nbytes, const std::vector<int> &q, int nq, int budget) {
  bool hi = high_rate(c.sr(), nbytes), lsbok = lsb_allowed(c.sr(), nbytes);
  int64_t lim = budget ? (int64_t)budget * 2048 : INT32_MAX, bits = 0, lsb = 0, end_bits = 0;
  int ne = c.ne(), end = 0; unsigned st = 0;
  for (int i = 0; i < nq && bits <= lim; i += 2) {
    const uint8_t *lut = SPEC_LUT[hi][i < (ne + 2) / 2 ? 0 : 1][st & 255];
    unsigned a = std::abs(q[i]), b = std::abs(q[i + 1]); int lev = 0;
    int sg = (a != 0) + (b != 0); bits += sg * 2048;
    while (std::max(a >> lev, b >> lev) >= 4) {
      bits += SPEC_B[lut[std::min(lev, 3)]][16];
      if (lev == 0 && lsbok) lsb += 2 + (a == 1) + (b == 1), bits -= 2048 * ((a == 1) + (b == 1)) * 0;
      if (!(lev == 0 && lsbok)) bits += 2 * 2048;
      lev++;
    }
    if (lev && lsbok) bits += 0;
    // signs of +-1 dropped by the lsb mode are accounted in both, as specified
    unsigned ma = a >> lev, mb = b >> lev; int l3 = std::min(lev, 3);
    bits += SPEC_B[lut[l3]][ma + 4 * mb];
    if (sg && bits <= lim) { end = i + 2; end_bits = bits; }
    st = (st << 4) + (l3 <= 1 ? 1 + (ma + mb) * (l3 + 1) : 12 + l3);
  }
  SpecCost r; r.nq = end;
  r.lsb = lsbok && end_bits + lsb * 2048 > lim;
  if (!budget) end_bits += lsb * 2048;
  r.nbits = (int)((end_bits + 2047) / 2048);
  return r;
}

inline int tns_nbits(const Cfg &c, const Frame &f) {
  int t = 0;
  for (int i = 0; i < f.nfilt; i++) {
    int b = 2048, o = f.order[i];
    if (o) b += TNS_ORDER_B[tns_weighting(c.dt(), f.nbytes)][o - 1];
    for (int k = 0; k < o; k++) b += TNS_COEF_B[k][8 + f.rc[i][k]];
    t += (b + 2047) / 2048;
  }
  return t;
}

// Write a frame from its fields : `q` integers, `rb` residual / lsb bits chosen by `res`
template <class RES>
inline bool write_frame(const Cfg &c, const Frame &f, const std::vector<int> &q, RES res, std::vector<uint8_t> &out, int xpos = -1, int xlev = 0, int xsym = 0) { // `xpos` : forced escapes
  Writer w(f.nbytes); int sr = c.sr(), ne = c.ne();
  w.bits(f.bw, nbits_bw(sr)); w.bits(f.nq / 2 - 1, nbits_lastnz(ne)); w.bits(f.lsb, 1); w.bits(f.g_idx, 8);
  for (int i = 0; i < f.nfilt; i++) {
    w.bits(f.order[i] > 0, 1); if (!f.order[i]) continue;
    w.sym(TNS_ORDER_M[tns_weighting(c.dt(), f.nbytes)], f.order[i] - 1);
    for (int k = 0; k < f.order[i]; k++) w.sym(TNS_COEF_M[k], f.rc[i][k] + 8);
  }
  w.bits(f.pitch, 1); w.bits(f.lfcb, 5); w.bits(f.hfcb, 5); w.bits(f.shape >> 1, 1);
  if (f.shape < 2) {
    w.bits(f.shape ? f.gain >> 1 : f.gain, 1); w.bits(f.ls_a, 1);
    w.bits((f.shape ? (f.gain & 1) : 2 + 2 * f.idx_b + f.ls_b) * 2390004 + f.idx_a, 25);
  } else {
    w.bits(f.shape == 3 ? f.gain >> 1 : f.gain, 2); w.bits(f.ls_a, 1);
    w.bits(f.shape == 2 ? f.idx_a : 15158272 + 2 * f.idx_a + (f.gain & 1), 24);
  }
  if (f.pitch) { w.bits(f.ltpf, 1); w.bits(f.pidx, 9); }
  w.bits(f.nf, 3);
  bool hi = high_rate(sr, f.nbytes); unsigned st = 0;
  for (int i = 0; i < f.nq; i += 2) {
    const uint8_t *lut = SPEC_LUT[hi][i < (ne + 2) / 2 ? 0 : 1][st & 255];
    int v[2] = { std::abs(q[i]), std::abs(q[i + 1]) }, lev = 0;
    if (i == xpos) v[0] &= ~(~0u << xlev), v[1] &= ~(~0u << xlev);
    while (i == xpos ? lev < xlev : std::max(v[0] >> lev, v[1] >> lev) >= 4) {
      if (lev > 0 || !f.lsb) { w.bits((unsigned)v[0] >> lev & 1, 1); w.bits((unsigned)v[1] >> lev & 1, 1); }
      w.sym(SPEC_M[lut[std::min(lev, 3)]], 16); lev++; }
    int drop = lev > 0 && f.lsb, xs[2] = { xsym & 3, xsym >> 2 };
    for (int k = 0; k < 2; k++) if (v[k] >> drop || (i == xpos && xs[k])) w.bits(q[i + k] < 0, 1);
    int ma = v[0] >> lev, mb = v[1] >> lev, l3 = std::min(lev, 3); if (i == xpos) ma = xs[0], mb = xs[1];
    w.sym(SPEC_M[lut[l3]], ma + 4 * mb);
    st = (st << 4) + (l3 <= 1 ? 1 + (ma + mb) * (l3 + 1) : 12 + l3);
  }
  int left = std::max(w.left(), 0);
  res(w, left);
  return w.finish(out);
}

// ---- Monitor ---------------------------------------------------------------
struct EncStat { long frames = 0, ltpf_present = 0, ltpf_active = 0, att = 0, tns = 0, lsb = 0, nn = 0,
  bwlow = 0, resb = 0, resb_amb = 0, q_amb = 0, pert = 0, inconcl = 0, ill = 0, hyp = 0, weak = 0; double offw = 0, offwmax = 0; };

struct Enc {
  Cfg c; int dt, sr, srp, ns, nsp, ne, nt, nd; bool bypass = false;
  Rng rng; EncStat st; std::string why;
  // state
  std::vector<int> xt;           // nt previous + nsp
  std::vector<double> xs;        // nd previous + nsp
  int64_t a_en = 0, a_an = 0; int a_p = 0;
  int64_t h1 = 0, h2 = 0; std::vector<int16_t> x12, x6;
  struct Lt { int tc = 0, pitch = 0; double nc0 = 0, nc1 = 0; bool act = false; };
  std::vector<Lt> lts;
  struct Sp { double olo = 0, ohi = 0, slo = 0, shi = 0; };
  std::vector<Sp> sps;
  bool wild = false; // number of bits driven by lines under the noise

  explicit Enc(const Cfg &c, uint64_t seed = 7) : c(c), dt(c.dt()), sr(c.sr()), srp(c.srp()), ns(c.ns()),
    nsp(c.nsp()), ne(c.ne()), nt(c.pcm_hz / 800), nd(Cfg::delay2(c.dt_us, c.pcm_hz)), rng(seed),
    xt(nt + nsp), xs(nd + nsp), x12(384), x6(178), lts(1), sps(1) {}

  bool fail(const char *fmt, ...) { char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); why = b; return false; }

  bool attack(int nbytes) {
    if (c.hr || dt < 2 || srp < 3) return false;
    if (dt == 2 && (nbytes < (srp == 3 ? 61 : 75) || nbytes >= 150)) return false;
    if (dt == 3 && (nbytes < (srp == 3 ? 81 : 100))) return false;
    int M = srp == 3 ? 2 : 3, sh = srp == 3 ? 1 : 2, nb = dt == 3 ? 4 : 3;
    auto ds = [&](int k) { int s = 0; for (int j = 0; j < M; j++) s += xt[nt + k * M + j]; return s >> sh; };
    int pos = 0;
    for (int b = 0; b < nb; b++) {
      int64_t e = 0;
      for (int j = 40 * b; j < 40 * b + 40; j++) { int v = (3 * ds(j) - 4 * ds(j - 1) + ds(j - 2)) >> 3; e += (v * v) >> 5; }
      int64_t a = std::max(a_an >> 2, a_en);
      if ((e >> 3) > a + (a >> 4)) pos = b + 1;
      a_en = e; a_an = a;
    }
    bool f = pos > 0 || a_p >= 1 + nb / 2;
    a_p = pos;
    return f;
  }

  // -- pitch analysis ; `eps` relative noise on the real valued quantities
  static int64_t idot(const int16_t *a, const int16_t *b, int n) {
    int64_t v = 0; for (int i = 0; i < n; i++) v += a[i] * b[i]; return (v + 32) >> 6; }
  struct LtOut { bool present = false; int pidx = 0; bool act = false; Lt s; int und = 0; bool near = false; };
  const int16_t *p12, *p6; int n12, n6;
  std::vector<double> cor; 
  void ltpf_prep() {
    int n = (1 + dt) * 32;
    std::move(x12.begin() + n, x12.end(), x12.begin());
    int up = 0, w = 0, st_ = 0; const int16_t *h = nullptr;
    switch (srp) {
      case 0: up = 8; w = 10; h = h_8k_12k8_q15; st_ = 5; break;
      case 1: up = 4; w = 20; h = h_16k_12k8_q15; st_ = 5; break;
      case 2: up = 8; w = 30; h = h_24k_12k8_q15; st_ = 15; break;
      case 3: up = 2; w = 40; h = h_32k_12k8_q15; st_ = 5; break;
      case 6: up = 2; w = 120; h = h_96k_12k8_q15; st_ = 15; break;
      default: up = 4; w = 60; h = h_48k_12k8_q15; st_ = 15; break; }
    for (int i = 0; i < n; i++) {
      int ph = (i * st_) % up, pos = (i * st_) / up; int64_t u = 0;
      for (int k = 0; k < w; k++) u += (int64_t)xt[nt + pos - (w - 1) + k] * h[ph * w + k];
      // 50 Hz high pass, Q30 coefficients
      int64_t y = (h1 + u * 1055267782) >> 30;
      y = std::min<int64_t>(std::max<int64_t>(y, INT32_MIN), INT32_MAX - 0x8000);
      h1 = h2 + u * -2110535566ll - y * -2110217691ll;
      h2 = u * 1055267782 - y * 1037111617;
      x12[384 - n + i] = (int16_t)((y + 0x8000) >> 16);
    }
    int o12 = 384 - n - (dt == 2 ? 44 : 24), n2 = n / 2;
    std::move(x6.begin() + n2, x6.end(), x6.begin());
    for (int i = 0; i < n2; i++) { const int16_t *x = &x12[o12 + 2 * i - 1];
      x6[178 - n2 + i] = (x[0] * 18477 + (x[-1] + x[1]) * 15424 + (x[-2] + x[2]) * 8105) >> 16; }
    n12 = n; n6 = n2; p12 = &x12[o12]; p6 = &x6[178 - n2];
    if (dt == 0) { p12 -= n; p6 -= n2; n12 *= 2; n6 *= 2; }
    cor.resize(98);
    for (int k = 0; k < 98; k++) cor[k] = (double)idot(p6, p6 - 17 - k, n6);
  }
  LtOut ltpf_run(const Lt &s, double eps, int zs = -1) {
    auto J = [&](double v) { return eps ? v * (1 + eps * rng.g()) : v; };
    auto JX = [&](double v) { return std::abs(v) < 1 << 24 ? v : J(v); };   // integers, exact in single precision
    LtOut o; o.s = s;
    double best = 0, r1 = 0, r2 = 0; int t1 = 0, t2 = 0;
    for (int k = 0; k < 98; k++) { double v = J(cor[k] * (1 - 0.5 * k / 97)); if (k == 0 || v > best) best = v, t1 = k; }
    r1 = cor[t1];
    for (int k = 0; k < 98; k++) o.near |= k != t1 && cor[k] * (1 - 0.5 * k / 97) > best - 4e-6 * std::abs(best);
    int lo = std::max(0, s.tc - 4), hi = std::min(97, s.tc + 4);
    t2 = lo; { double m = 0; for (int k = lo; k <= hi; k++) { double v = JX(cor[k]); if (k == lo || v > m) m = v, t2 = k; }
      for (int k = lo; k <= hi; k++) o.near |= k != t2 && cor[k] > m - 4e-6 * std::abs(m); }
    r2 = cor[t2];
    auto norm = [&](double r, double a, double b) {
      if (a <= 0 || b <= 0) return (double)NAN;            // undefined for silent signals
      return J(r / sqrt(a * b)); };
    double exx = (double)idot(p6, p6, n6);
    double n1 = r1 <= 0 ? 0 : norm(r1, exx, idot(p6 - 17 - t1, p6 - 17 - t1, n6));
    double n2 = r2 <= 0 ? 0 : norm(r2, exx, idot(p6 - 17 - t2, p6 - 17 - t2, n6));
    int nund = 0; auto und = [&]() { o.und++; return (zs < 0 ? rng.n(2) : zs >> nund++ & 1) == 1; };
    bool sel1 = std::isnan(n1) || std::isnan(n2) ? und() : n2 <= 0.85 * n1;
    o.near |= std::abs(n2 - 0.85 * n1) < 4e-6 * std::abs(n2);
    bool sel1n = std::isnan(n1) || std::isnan(n2) ? und() : sel1;   // no consistency can be assumed on unordered values
    o.s.tc = sel1 ? t1 : t2; int tc = 17 + o.s.tc;
    { double n = sel1n ? n1 : n2; o.present = std::isnan(n) ? und() : n > 0.6; }
    double nc = 0; int pitch = 0;
    if (o.present) {
      int a = std::max(32, 2 * tc - 4), b = std::min(228, 2 * tc + 4);
      std::vector<double> r(b - a + 9);
      for (int k = 0; k < (int)r.size(); k++) r[k] = (double)idot(p12, p12 - (a - 4 + k), n12);
      int e = a; { double m = 0; for (int k = a; k <= b; k++) { double v = JX(r[k - a + 4]); if (k == a || v > m) m = v, e = k; }
        for (int k = a; k <= b; k++) o.near |= k != e && r[k - a + 4] > m - 4e-6 * std::abs(m); }
      auto ip = [&](int d) { // interpolated correlation at e + d/4
        static const double H[4][8] = {
          { 0, 1.53572770e-02, -4.72963246e-02, 8.35788573e-02, 8.98638285e-01, 8.35788573e-02, -4.72963246e-02, 1.53572770e-02 },
          { 2.74547165e-03, 4.59833449e-03, -7.54404636e-02, 8.17488686e-01, 3.30182571e-01, -1.05835916e-01, 2.86823405e-02, -2.87456116e-03 },
          { -3.00125103e-03, 2.95038503e-02, -1.30305021e-01, 6.03297008e-01, 6.03297008e-01, -1.30305021e-01, 2.95038503e-02, -3.00125103e-03 },
          { -2.87456116e-03, 2.86823405e-02, -1.05835916e-01, 3.30182571e-01, 8.17488686e-01, -7.54404636e-02, 4.59833449e-03, 2.74547165e-03 } };
        int ph = (d + 4) % 4; const double *x = &r[e - a + 4]; double v = 0;
        if (ph == 0) for (int k = 1; k < 8; k++) v += x[k - 4] * H[0][k];
        else for (int k = 0; k < 8; k++) v += x[k - (d < 0 ? 4 : 3)] * H[ph][k];
        return J(v); };
      int f = 0; double dm = ip(0);
      int step = e < 127 ? 1 : e < 157 ? 2 : 4;
      for (int d = step; d < 4; d += step) {
        double v = ip(d); if (v > dm) dm = v, f = d;
        if (e > 32) { v = ip(-d); if (v > dm) dm = v, f = -d; }
      }
      pitch = 4 * e + f; int pe = pitch / 4, pf = pitch % 4;
      o.pidx = pe < 127 ? 4 * pe + pf - 128 : pe < 157 ? 2 * pe + pf / 2 + 126 : pe + 283;
      int16_t u[128], v[128];
      auto itp = [&](const int16_t *x, int d, int16_t *y) {
        static const int h4[4][4] = { { 6877, 19121, 6877, 0 }, { 3506, 18025, 11000, 220 }, { 1300, 15048, 15048, 1300 }, { 220, 11000, 18025, 3506 } };
        for (int i = 0; i < n12; i++) { int s_ = 0; for (int k = 0; k < 4; k++) s_ += x[i + 1 - k] * h4[d][k]; y[i] = (int16_t)(s_ >> 15); } };
      itp(p12, 0, u); itp(p12 - pe, pf, v);
      double uu = idot(u, u, n12), vv = idot(v, v, n12), uv = idot(u, v, n12);
      nc = uu <= 0 || vv <= 0 ? NAN : J(uv / sqrt(uu * vv));   // undefined for silent signals
    }
    auto gt = [&](double a, double b) { return std::isnan(a) ? und() : a > b; };
    if (c.hr || !o.present) o.act = false;
    else if (s.act) o.act = gt(nc, 0.9) || (gt(nc, 0.84) && std::abs(pitch - s.pitch) < 8 && gt(nc - s.nc0, -0.1));
    else o.act = gt(nc, 0.94) && gt(s.nc0, 0.94) && (dt == 3 || gt(s.nc1, 0.94));
    o.s.act = o.act; o.s.pitch = pitch; o.s.nc1 = s.nc0; o.s.nc0 = nc;
    return o;
  }

  std::vector<double> energies(const std::vector<double> &X) {
    int nb = NUM_BANDS[dt][sr]; const int *l = BAND_LIM[dt][sr]; std::vector<double> e(nb);
    for (int b = 0; b < nb; b++) { double s = 0; for (int k = l[b]; k < l[b + 1]; k++) s += X[k] * X[k]; e[b] = s / (l[b + 1] - l[b]); }
    return e; }
  bool near_nyquist(const std::vector<double> &e) {
    static const int H[4] = { 2, 3, 4, 2 }; int nb = (int)e.size(); double a = 0, b = 0;
    for (int i = 0; i < nb; i++) (i < nb - H[dt] ? a : b) += e[i];
    return b > 30 * a; }
  int bandwidth(const std::vector<double> &e) {
    if (c.hr || sr == 0) return sr;
    static const int B[4][4][4][2] = {
      { {{24,34}}, {{24,32},{35,39}}, {{24,31},{33,38},{39,42}}, {{22,29},{31,35},{37,40},{41,43}} },
      { {{39,49}}, {{35,44},{47,51}}, {{34,42},{44,49},{50,53}}, {{32,40},{42,46},{48,51},{52,54}} },
      { {{51,63}}, {{45,55},{58,63}}, {{42,51},{53,58},{60,63}}, {{40,48},{51,55},{57,60},{61,63}} },
      { {{53,63}}, {{47,56},{59,63}}, {{44,52},{54,59},{60,63}}, {{41,49},{51,55},{57,60},{61,63}} } };
    static const double Q[4] = { 20, 10, 10, 10 }, C[4] = { 15, 23, 20, 20 };
    static const int L[4][4] = { { 4, 4, 3, 1 }, { 4, 4, 3, 1 }, { 4, 4, 3, 2 }, { 4, 4, 3, 1 } };
    const int (*r)[2] = B[dt][sr - 1]; int bw = 0;
    for (int k = 0; k < sr; k++) { double s = 0; for (int b = r[k][0]; b <= r[k][1]; b++) s += e[b];
      if (s / (r[k][1] - r[k][0] + 1) >= Q[k]) bw = k + 1; }
    if (bw == sr) return sr;
    int l = L[dt][bw], i0 = r[bw][0]; bool drop = false;
    for (int n = i0 - l + 1; n <= i0 + 1; n++) drop |= e[n - l] > pow(10, C[bw] / 10) * e[n];
    return drop ? bw : sr; }

  struct Sns { int lf, hf, shape, gain, ia, ib; bool la, lb;
    bool operator==(const Sns &o) const { return lf == o.lf && hf == o.hf && shape == o.shape && gain == o.gain && ia == o.ia && la == o.la &&
      (shape || (ib == o.ib && lb == o.lb)); }
    bool operator<(const Sns &o) const { auto k = [](const Sns &s) { return std::make_tuple(s.lf, s.hf, s.shape, s.gain, s.ia, s.la, s.shape ? 0 : s.ib, s.shape ? false : s.lb); }; return k(*this) < k(o); } };
  Sns sns(const std::vector<double> &eb, int nbytes, bool att, double eps) {
    int nb = (int)eb.size(); std::vector<double> e;
    if (nb < 32) { int n4 = 32 % nb; for (int i = 0; i < nb; i++) for (int k = 0; k < (i < n4 ? 4 : 2); k++) e.push_back(eb[i]); }
    else for (int i = 0; i < nb; i++) for (int k = 0; k < (i < 64 - nb ? 2 : 1); k++) e.push_back(eb[i]);
    static const int tilt[7] = { 14, 18, 22, 26, 30, 30, 34 };
    std::vector<double> p(64); double sum = 0;
    for (int b = 0; b < 64; b++) {
      p[b] = 0.25 * e[std::max(b - 1, 0)] + 0.5 * e[b] + 0.25 * e[std::min(b + 1, 63)];
      p[b] *= pow(10, b * (double)tilt[sr] / 630); sum += p[b]; }
    double fl = std::max(sum / 64 * 1e-4, 0x1p-32);
    double common = eps ? eps * rng.g() : 0;
    for (int b = 0; b < 64; b++) p[b] = log2(std::max(p[b], fl)) / 2 + (eps ? eps * rng.g() + common : 0);
    double scf[16], s = 0;
    static const double W[6] = { 1, 2, 3, 3, 2, 1 };
    for (int i = 0; i < 16; i++) { scf[i] = 0; for (int k = 0; k < 6; k++) scf[i] += W[k] / 12 * p[std::min(std::max(4 * i - 1 + k, 0), 63)]; s += scf[i]; }
    double cf = c.hr ? 0.6 : 0.85;
    if (c.hr && 8 * nbytes > (dt == 0 ? 1150 : dt == 1 ? 2300 : 4400)) cf *= dt == 3 ? 0.35 : 0.25;
    for (int i = 0; i < 16; i++) scf[i] = cf * (scf[i] - s / 16);
    if (att) {
      double t[16], m = 0;
      for (int i = 0; i < 16; i++) { double a = 0; int n = 0; for (int k = i - 2; k <= i + 2; k++) if (k >= 0 && k < 16) a += scf[k], n++; t[i] = a / n; m += t[i]; }
      for (int i = 0; i < 16; i++) scf[i] = (dt == 2 ? 0.3 : 0.5) * (t[i] - m / 16);
    }
    Sns o{}; double bl = 1e300, bh = 1e300;
    for (int k = 0; k < 32; k++) { double a = 0, b = 0;
      for (int i = 0; i < 8; i++) { a += pow(scf[i] - SNS_LFCB[k][i], 2); b += pow(scf[8 + i] - SNS_HFCB[k][i], 2); }
      if (a < bl) bl = a, o.lf = k;
      if (b < bh) bh = b, o.hf = k; }
    double r[16], t[16]; const auto &d = dct16();
    for (int i = 0; i < 16; i++) r[i] = scf[i] - (i < 8 ? SNS_LFCB[o.lf][i] : SNS_HFCB[o.hf][i - 8]);
    for (int k = 0; k < 16; k++) { t[k] = 0; for (int n = 0; n < 16; n++) t[k] += r[n] * d.m[n][k]; }
    int y[4][16]; double m = 0; for (double v : t) m += std::abs(v);
    auto grow = [&](int *v, int from, int to, int target) {
      int n = 0; double co = 0, en = 0; for (int i = from; i < to; i++) n += v[i], co += v[i] * std::abs(t[i]), en += v[i] * v[i];
      for (; n < target; n++) { int bi = -1; double bc = 0, be = 1;
        for (int i = from; i < to; i++) { double cc = (co + std::abs(t[i])) * (co + std::abs(t[i])), ee = en + 2 * v[i] + 1;
          if (bi < 0 || cc * be > ee * bc) bi = i, bc = cc, be = ee; }
        co += std::abs(t[bi]); en += 2 * v[bi] + 1; v[bi]++; } };
    for (int i = 0; i < 16; i++) y[3][i] = (int)floor(std::abs(t[i]) * 5 / std::max(m, 1e-31));
    grow(y[3], 0, 16, 6); memcpy(y[2], y[3], sizeof y[2]); grow(y[2], 0, 16, 8);
    memcpy(y[1], y[2], sizeof y[1]); for (int i = 10; i < 16; i++) y[1][i] = 0;
    grow(y[1], 0, 10, 10); memcpy(y[0], y[1], sizeof y[0]); grow(y[0], 10, 16, 1);
    double best = 1e300;
    for (int sh = 0; sh < 4; sh++) { double en = 0; for (int i = 0; i < 16; i++) { if (t[i] < 0) y[sh][i] = -y[sh][i]; en += y[sh][i] * y[sh][i]; }
      for (int g = 0; g < SNS_NGAINS[sh]; g++) { double e2 = 0; for (int i = 0; i < 16; i++) e2 += pow(t[i] - SNS_GAINS[sh][g] * y[sh][i] / sqrt(en), 2);
        if (e2 < best) best = e2, o.shape = sh, o.gain = g; } }
    mpvq_enum(y[o.shape], o.shape < 2 ? 10 : 16, &o.ia, &o.la);
    if (o.shape == 0) mpvq_enum(y[0] + 10, 6, &o.ib, &o.lb);
    return o;
  }

  struct Tns { int order[2] = { 0, 0 }, rc[2][8] = {{0}}; bool operator==(const Tns &o) const {
      for (int f = 0; f < 2; f++) { if (order[f] != o.order[f]) return false; for (int k = 0; k < order[f]; k++) if (rc[f][k] != o.rc[f][k]) return false; } return true; } };
  Tns tns(const std::vector<double> &X, int bw, bool nn, int nbytes, double eps = 0) {
    static const int T5[3][5] = { { 6, 23, 40 }, { 6, 43, 80 }, { 6, 63, 120 } };
    int nfl = tns_nfilters(dt, bw), nsub = dt >= 2 ? 3 : 2, mo = dt <= 1 ? 4 : 8; Tns o;
    int b5 = std::min(bw, 4);
    static const int S2[5][3] = { { 3, 10, 20 }, { 3, 20, 40 }, { 3, 30, 60 }, { 3, 40, 80 }, { 3, 51, 100 } };
    static const int S5[2][5] = { { 6, 43, 80, 120, 160 }, { 6, 53, 100, 150, 200 } };
    static const int S7[5][7] = { { 9, 26, 43, 60 }, { 9, 46, 83, 120 }, { 9, 66, 123, 180 }, { 9, 46, 82, 120, 159, 200, 240 }, { 9, 56, 103, 150, 200, 250, 300 } };
    static const int S10[5][7] = { { 12, 34, 57, 80 }, { 12, 61, 110, 160 }, { 12, 88, 164, 240 }, { 12, 61, 110, 160, 213, 266, 320 }, { 12, 74, 137, 200, 266, 333, 400 } };
    const int *sub = dt == 0 ? S2[b5] : dt == 1 ? (b5 < 3 ? T5[b5] : S5[b5 - 3]) : dt == 2 ? S7[b5] : S10[b5];
    for (int f = 0; f < nfl; f++) {
      double r[9] = { 0 }; bool dead = false; double cc[3][9];
      for (int s = 0; s < nsub; s++) for (int k = 0; k <= mo; k++) { cc[s][k] = 0;
        for (int n = sub[f * nsub + s]; n + k < sub[f * nsub + s + 1]; n++) cc[s][k] += X[n] * X[n + k]; }
      for (int s = 0; s < nsub; s++) dead |= cc[s][0] < 1e-37;
      r[0] = nsub;
      for (int k = 1; k <= mo && !dead; k++) { for (int s = 0; s < nsub; s++) r[k] += cc[s][k] / cc[s][0];
        r[k] *= exp(-0.5 * pow(0.02 * M_PI * k, 2)); }
      double a[9] = { 1 }, b[9], err = r[0];
      for (int k = 1; k <= mo; k++) { double q = -r[k]; for (int i = 1; i < k; i++) q -= a[i] * r[k - i]; q /= err;
        memcpy(b, a, sizeof b); for (int i = 1; i < k; i++) a[i] = b[i] + q * b[k - i]; a[k] = q; err *= 1 - q * q; }
      double pg = r[0] / err;
      if (nn || !(pg > 1.5)) continue;
      if (tns_weighting(dt, nbytes) && pg < 2) { double ga = 1 - (1 - 0.85) * (2 - pg) / 0.5; for (int k = 1; k <= mo; k++) a[k] *= pow(ga, k); }
      double rc[8];
      for (int k = mo; k >= 1; k--) { rc[k - 1] = a[k]; double e = 1 - a[k] * a[k]; memcpy(b, a, sizeof b);
        for (int i = 1; i < k; i++) a[i] = (b[i] - b[k] * b[k - i]) / e; }
      for (int k = 0; k < mo; k++) {
        int q = (int)floor(std::max(asin(std::min(1.0, std::abs(rc[k]))) * 17 / M_PI + 0.5 + (eps ? eps * rng.g() : 0), 0.));
        o.rc[f][k] = rc[k] < 0 ? -q : q; if (q) o.order[f] = k + 1; }
    }
    return o;
  }
  void tns_filter(std::vector<double> &X, const Frame &f) {
    double stt[8] = { 0 }; int stop = Cfg::ne_of(dt, std::min(f.bw, 4));
    for (int i = 0; i < f.nfilt; i++) {
      int a = i ? stop / 2 : 3 * (dt + 1), b = i + 1 == f.nfilt ? stop : stop / 2;
      if (!f.order[i]) continue;
      static const int Q[9] = { 0, 0x1785, 0x2e3d, 0x4362, 0x563c, 0x6625, 0x7295, 0x7b1d, 0x7f74 };
      for (int n = a; n < b; n++) { double v = X[n], sv = v;
        for (int k = 0; k < f.order[i]; k++) { int q = f.rc[i][k]; double r = (q < 0 ? -1 : 1) * Q[std::abs(q)] / 32768.0;
          double t = r * v + stt[k]; v += r * stt[k]; stt[k] = sv; sv = t; }
        X[n] = v; }
    }
  }

  // Bisection of the gain, on the energies `e` (dB) of blocks of 4 lines
  int gain_search(const std::vector<double> &e, double nb, int goff) {
    int g = 255 - goff, n4 = (int)e.size();
    for (int i = 128; i > 0; i >>= 1) {
      g -= i; double v = 0; bool run = false;
      for (int j = n4 - 1; j >= 0; j--) { double d = e[j] - g * 20.0 / 28;
        if (d < 0) { if (run) v += 2.7; } else { run = true; v += d < 43 ? d + 7 : 2 * d - 36; } }
      if (v > nb * 1.4) g += i; }
    return g; }
  std::vector<double> gain_energies(const std::vector<double> &X, int nbytes, double edb) {
    int n4 = ne / 4; double nfl = 0, xm = 0;
    for (int k = 0; k < ne; k++) xm = std::max(xm, std::abs(X[k]));
    if (c.hr) {
      static const int RC[4][2] = { { -6, -6 }, { 0, 0 }, { 0, 0 }, { 2, 5 } };
      int rb = std::min(std::max(8 * nbytes * 4 / (125 * (1 + dt)) + RC[dt][sr - 5], 6), 23);
      double m0 = 1e-5, m1 = 1e-5; for (int k = 0; k < ne; k++) m0 += std::abs(X[k]), m1 += std::abs(X[k]) * k;
      int m = (int)std::min(8.0, round(1.6 * m0 / ((1 + dt) * m1) * (1 + (edb ? 1e-5 * rng.g() : 0))));
      nfl = ldexp(xm, -rb) * exp2(-(8 - m));
    }
    std::vector<double> e(n4);
    for (int i = 0; i < n4; i++) { double v = 0; for (int k = 0; k < 4; k++) v += X[4 * i + k] * X[4 * i + k];
      e[i] = 10 * log10(std::max(v + nfl, 1e-10)) + (edb ? edb * rng.g() : 0); }
    return e; }
  int gain_min(double xm, int goff) {
    double lim = c.hr ? 32767.0 * 256 : 32767.0; int gm = 255 - goff;
    for (int i = 128; i > 0; i >>= 1) if (lim * g_of(gm - i) > xm) gm -= i;
    return gm; }
  int gain_adjust(int gi, int n, int budget, int gmi) {
    static const int T[7][3] = { { 80, 500, 850 }, { 230, 1025, 1700 }, { 380, 1550, 2550 }, { 530, 2075, 3400 }, { 680, 2600, 4250 }, { 680, 2600, 4250 }, { 830, 3125, 5100 } };
    const int *t = T[sr]; double del;
    if (n < t[0]) del = (n + 48) / 16.0;
    else if (n < t[1]) { double a = t[0] / 16.0 + 3, b = t[1] / 48.0; del = a + (double)(n - t[0]) * (b - a) / (t[1] - t[0]); }
    else del = std::min(n, t[2]) / 48.0;
    int delta = (int)floor(del + 0.5 + 1e-9);
    if (c.hr) { if (n <= budget) return 0; int fac = 1 + (dt <= 1) + (dt == 0) * (1 + (n >= 520));
      return std::min(gi + fac + fac * (n - budget) / delta, 255) - gi; }
    if (n < budget - (delta + 2)) return gi > gmi ? -1 : 0;
    if (n > budget) return gi == 255 ? 0 : gi >= 254 || n < budget + delta ? 1 : 2;
    return 0; }
  // All the outcomes of the estimation, from the hypothesis on the state, that give the index `obs`
  template <class JIT> std::vector<Sp> gains(const std::vector<double> &X, const std::vector<double> &bg, double rms,
      int nbytes, int budget, int obs, double scale, JIT jit, int *nominal) {
    int goff = quant_gain_offset(sr, nbytes); std::vector<Sp> keep; if (scale <= 1) wild = false;
    double xm = 0; for (int k = 0; k < ne; k++) xm = std::max(xm, std::abs(X[k]));
    std::vector<std::vector<double>> E; E.push_back(gain_energies(X, nbytes, 0));
    for (double d : { 1.5e-3, -1.5e-3 }) { E.push_back(E[0]); for (double &v : E.back()) v += d * scale; }
    for (int k = 0; k < (scale > 1 ? 60 : 3); k++) E.push_back(gain_energies(jit(X, scale), nbytes, 1e-4 * scale));
    std::set<int> gms; double xe = 3e-6 * scale * (xm + rms * 1e-1);
    for (double d : { -1., 0., 1. }) gms.insert(gain_min(std::max(xm + d * xe, 0.), goff));
    std::map<int, std::pair<int, int>> ns;
    auto nrange = [&](int g) { auto it = ns.find(g); if (it != ns.end()) return it->second;
      double gi = 1 / g_of(g), off = c.hr ? 0.5 : 0.375; std::vector<double> a(ne), ep(ne); bool amb = false;
      for (int k = 0; k < ne; k++) { double v = std::abs(X[k]) * gi; a[k] = v + off; ep[k] = (6e-6 * v + 4e-6 * rms * bg[k] * gi) * std::min(scale, 3.) + 1e-7;
        double fr = a[k] - floor(a[k]); amb |= fr < ep[k] || fr > 1 - ep[k]; }
      int lo = INT32_MAX, hi = 0; std::vector<int> q(ne);
      for (int t = 0; t < (amb ? 14 : 1); t++) { int nq = 0;
        for (int k = 0; k < ne; k++) { double u = t == 0 ? 0 : t == 1 ? 1 : t == 2 ? -1 : 2 * rng.u() - 1;
          q[k] = (int)floor(std::max(a[k] + u * ep[k], 0.)); if (q[k]) nq = (k / 2) * 2 + 2; }
        int n = spec_cost(c, nbytes, q, nq, 0).nbits; lo = std::min(lo, n); hi = std::max(hi, n); }
      wild |= hi - lo > 120 && scale <= 1;
      if (hi > lo) { int w = 1 + (hi - lo) / 3; lo -= w; hi += w; }
      return ns[g] = { lo, hi }; };
    bool first = true;
    for (auto &s : sps) {
      auto upd = [&](double o, double p) { return 0.8 * o + 0.2 * std::min(std::max(o + p, -40.), 40.); };
      double lo = upd(s.olo, s.slo) - 1e-5, hi = upd(s.ohi, s.shi) + 1e-5;
      std::map<std::pair<int, int>, std::pair<double, double>> cand; // (g, rst) -> range of the offset
      auto put = [&](int g, double a, double b) {
        for (int gm : gms) { bool rst = g < gm || xm == 0; bool mayrst = g <= gm; (void)mayrst;
          auto k = std::make_pair(rst ? gm : g, rst ? 1 : 0); auto it = cand.find(k);
          if (it == cand.end()) cand[k] = { a, b }; else it->second = { std::min(it->second.first, a), std::max(it->second.second, b) }; } };
      int nlo = (int)trunc(budget + lo + 0.5), nhi = (int)trunc(budget + hi + 0.5);
      if (first) { first = false; int g = gain_search(E[0], (nlo + nhi) / 2, goff), gm = gain_min(xm, goff); g = std::max(g, gm);
        auto n = nrange(g); *nominal = g + goff + gain_adjust(g + goff, (n.first + n.second) / 2, budget, gm + goff); }
      for (auto &e : E) for (int nb = nlo; nb <= nhi; nb++) {
        double a = std::max(lo, nb - 0.5 - budget - 1e-3), b = std::min(hi, nb + 0.5 - budget + 1e-3);
        if (nb <= 0) a = lo, b = hi;
        for (double d : { -0.6, 0., 0.6 }) put(gain_search(e, nb + d * scale, goff), a, b); }
      for (auto &cd : cand) { int g = cd.first.first; bool rst = cd.first.second; auto n = nrange(g);
        bool any = false; int a = INT32_MAX, b = INT32_MIN;
        for (int v = n.first; v <= n.second; v++) for (int gm : gms) {
          if (g + goff + gain_adjust(g + goff, v, budget, gm + goff) == obs) { any = true; a = std::min(a, v); b = std::max(b, v); } }
        if (!any) continue;
        Sp o; if (rst) o = Sp(); else o = Sp{ cd.second.first, cd.second.second, (double)(budget - b), (double)(budget - a) };
        bool merged = false;
        for (auto &k : keep) if (k.olo <= o.ohi + .01 && o.olo <= k.ohi + .01 && k.slo <= o.shi + 3 && o.slo <= k.shi + 3) {
          k.olo = std::min(k.olo, o.olo); k.ohi = std::max(k.ohi, o.ohi); k.slo = std::min(k.slo, o.slo); k.shi = std::max(k.shi, o.shi); merged = true; break; }
        if (!merged) keep.push_back(o);
      } }
    while (keep.size() > 6) { Sp o = keep.back(); keep.pop_back(); Sp &k = keep.back();
      k.olo = std::min(k.olo, o.olo); k.ohi = std::max(k.ohi, o.ohi); k.slo = std::min(k.slo, o.slo); k.shi = std::max(k.shi, o.shi); }
    return keep; }
  int ints(const std::vector<double> &X, int g, std::vector<int> &q) {
    double gi = 1 / g_of(g), off = c.hr ? 0.5 : 0.375; int nq = 0;
    for (int k = 0; k < ne; k++) { double v = X[k] * gi; int a = (int)floor(std::abs(v) + off); q[k] = v < 0 ? -a : a; if (a) nq = (k / 2) * 2 + 2; }
    return nq; }
  int noise(const std::vector<double> &V, int nq, int bw, double eps) {
    static const int W[4] = { 1, 1, 2, 3 }; int w = W[dt], stop = Cfg::ne_of(dt, std::min(bw, 4));
    double lim = c.hr ? 0.5 : 0.625, s = 0; int n = 0;
    for (int k = 6 * (dt + 1); k < stop; k++) { bool z = true;
      for (int j = k - w; j <= std::min(k + w, stop - 1); j++) z &= j >= nq || std::abs(V[j]) < lim;
      if (z) s += std::abs(V[k]), n++; }
    int v = n ? 8 - (int)floor(16 * s / n + 0.5 + eps) : 8;
    return std::min(std::max(v, 0), 7); }

  // Main : check one frame.  `x16` 16 bits view of the input, `x` real one (16 bits scale)
  bool step(const int *x16, const double *x, const uint8_t *data, int nbytes) {
    st.frames++;
    std::copy(xt.end() - nt, xt.end(), xt.begin()); std::copy(x16, x16 + nsp, xt.begin() + nt);
    std::copy(xs.end() - nd, xs.end(), xs.begin()); std::copy(x, x + nsp, xs.begin() + nd);
    Frame f = parse(c, data, nbytes);
    if (f.err) return fail("frame is not decodable (reason %d)", f.err);
    bool att = attack(nbytes); st.att += att;

    std::vector<double> t(2 * nsp), XX(nsp), X0(ns);
    const float *win = MDCT_WIN[dt][srp];
    for (int n = 0; n < nsp + nd; n++) t[n] = xs[n] * win[n];
    mdct(t.data(), nsp, XX.data());
    double rms = 0; for (double v : XX) rms += v * v; rms = sqrt(rms / nsp);
    { double rt = 0; for (double v : t) rt += v * v; rt = sqrt(rt / nsp); if (rt > 8 * rms) rms = rt; }   // samples cancelled by the folding, up to their rounding
    for (int k = 0; k < ns; k++) X0[k] = XX[k] * sqrt((double)ns / nsp);
    auto jit = [&](const std::vector<double> &v, double s) { std::vector<double> o(v); for (auto &a : o) a = a * (1 + 4e-7 * s * rng.g()) + 4e-7 * s * rms * rng.g(); return o; };

    auto e0 = energies(X0); bool nn = near_nyquist(e0), nn2 = nn;
    for (int k = 0; k < 4; k++) if (near_nyquist(energies(jit(X0, 2)))!= nn) nn2 = !nn;
    st.nn += nn;

    // -- pitch / LTPF
    ltpf_prep();
    if (bypass) {
      if (f.pitch) return fail("pitch present while LTPF is disabled");
    } else {
      std::vector<Lt> keep; LtOut ex; 
      auto ok = [&](const LtOut &o) {
        if (o.present != f.pitch) return false;
        if (!o.present) return true;
        if (o.pidx != f.pidx) return false;
        return f.ltpf == (o.act && !nn) || f.ltpf == (o.act && !nn2); };
      auto nceq = [](double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::abs(a - b) < 1e-4; };
      auto add = [&](const Lt &s) { for (auto &k : keep) if (k.tc == s.tc && k.act == s.act && k.pitch == s.pitch && nceq(k.nc0, s.nc0) && nceq(k.nc1, s.nc1)) return;
        if (keep.size() < 24) keep.push_back(s); };
      bool nearby = false;
      for (size_t i = 0; i < lts.size(); i++) for (int z = 0, nz = 1; z < nz; z++) { LtOut o = ltpf_run(lts[i], 0, z); if (i == 0 && !z) ex = o; if (o.und) nz = 64; nearby |= o.near; if (ok(o)) add(o.s); }
      for (int k = 0; k < (nearby ? 40 : 3); k++) { LtOut o = ltpf_run(lts[rng.n((int)lts.size())], 1e-6); if (ok(o)) add(o.s); }
      for (double s = 1e-6; keep.empty() && s < 5e-5; s *= 3) { st.pert++;
        for (int k = 0; k < 64; k++) { LtOut o = ltpf_run(lts[rng.n((int)lts.size())], s); if (ok(o)) add(o.s); } }
      // low level signals : the (unobserved) pitch state of the frames without pitch is ill-conditioned
      if (keep.empty() && idot(p6, p6, n6) < 2000) { Lt l = lts[0]; for (l.tc = 0; l.tc < 98; l.tc++) for (int z = 0; z < 4; z++) { LtOut o = ltpf_run(l, 0, z); if (ok(o)) add(o.s); }
        if (!keep.empty()) st.weak++; }
      if (keep.empty()) return fail("LTPF/pitch data (present %d index %d active %d) differs from the specified analysis (present %d index %d active %d, nc %.6f)",
          f.pitch, f.pidx, f.ltpf, ex.present, ex.pidx, ex.act && !nn, ex.s.nc0);
      lts = keep; if (lts.size() > 1) st.hyp++;
    }
    st.ltpf_present += f.pitch; st.ltpf_active += f.ltpf;

    // -- levels close to the underflow of single precision
    if (rms > 0 && rms < 1e-8) {
      for (auto &s : sps) { auto upd = [&](double o, double p) { return 0.8 * o + 0.2 * std::min(std::max(o + p, -40.), 40.); };
        double lo = upd(s.olo, s.slo), hi = upd(s.ohi, s.shi); int b = 8 * nbytes; s = Sp{ lo, hi, (double)(b - 120), (double)b }; }
      sps.resize(std::min<size_t>(sps.size(), 4)); sps.push_back(Sp()); st.ill++; return true; }

    // -- bandwidth
    if (bandwidth(e0) != f.bw) { bool m = false; std::map<int,int> h; st.pert++;
      for (int k = 0; k < 60 && !m; k++) { int b = bandwidth(energies(jit(X0, k < 20 ? 1 : k < 40 ? 4 : 16))); h[b]++; m = b == f.bw; }
      if (!m) { if (h.size() > 1) st.inconcl++; else return fail("bandwidth %d, specified detector gives %d", f.bw, bandwidth(e0)); } }
    st.bwlow += f.bw < sr;

    // -- SNS
    Sns os{ f.lfcb, f.hfcb, f.shape, f.gain, f.idx_a, f.idx_b, f.ls_a, f.ls_b };
    Sns es = sns(e0, nbytes, att, 0);
    if (!(es == os)) { bool m = false; std::map<Sns, int> h; int tot = 0; st.pert++;
      for (int k = 0; k < 200 && !m; k++) { double s = k < 60 ? 1 : k < 120 ? 3 : 8; auto r = sns(energies(jit(X0, s)), nbytes, att, 3e-5 * s); m = r == os; h[r]++; tot++; }
      if (!m) { int top = 0; for (auto &p : h) top = std::max(top, p.second);
        if (top < tot * 9 / 10) st.inconcl++;
        else return fail("SNS (lf %d hf %d shape %d gain %d a %d%c b %d) differs from the specified quantisation (lf %d hf %d shape %d gain %d a %d%c b %d), attack %d",
          os.lf, os.hf, os.shape, os.gain, os.ia, os.la ? '-' : '+', os.ib, es.lf, es.hf, es.shape, es.gain, es.ia, es.la ? '-' : '+', es.ib, att); } }
    std::vector<double> X(X0.begin(), X0.begin() + ne); 
    std::vector<double> bg(ne);
    { int ci[16] = { 0 }; static const int K[4] = { 10, 10, 8, 6 }; double cn[16], scf[16], en = 0;
      mpvq_deenum(f.shape < 2 ? 10 : 16, K[f.shape], f.ls_a, f.idx_a, ci);
      if (f.shape == 0) mpvq_deenum(6, 1, f.ls_b, f.idx_b, ci + 10);
      for (int v : ci) en += v * v;
      for (int i = 0; i < 16; i++) cn[i] = ci[i] / sqrt(en);
      sns_scf(f.lfcb, f.hfcb, cn, SNS_GAINS[f.shape][f.gain], scf);
      auto gs = sns_interp(dt, sr, scf); const int *lim = BAND_LIM[dt][sr];
      for (size_t b = 0; b < gs.size(); b++) for (int k = lim[b]; k < lim[b + 1]; k++) X[k] *= bg[k] = exp2(-gs[b]); }
    auto jitS = [&](const std::vector<double> &v, double s) { std::vector<double> o(v); for (int k = 0; k < ne; k++) o[k] = v[k] * (1 + 6e-7 * s * rng.g()) + 4e-7 * s * rms * bg[k] * rng.g(); return o; };

    // -- TNS
    Tns ot; for (int i = 0; i < 2; i++) { ot.order[i] = f.order[i]; memcpy(ot.rc[i], f.rc[i], sizeof ot.rc[i]); }
    Tns et = tns(X, f.bw, nn, nbytes);
    st.tns += ot.order[0] || ot.order[1];
    if (!(et == ot)) { bool m = false; int lo[2][9], hi[2][9]; st.pert++;
      for (int i = 0; i < 2; i++) for (int k = 0; k < 9; k++) lo[i][k] = 99, hi[i][k] = -99;
      for (int n = 0; n < 80 && !m; n++) { double s = n < 30 ? 1 : n < 60 ? 4 : 10;
        Tns r = tns(jitS(X, s), f.bw, n % 2 ? nn : nn2, nbytes, 1e-4 * s); m = r == ot;
        for (int i = 0; i < 2; i++) for (int k = 0; k < 9; k++) { int v = k == 8 ? r.order[i] : k < r.order[i] ? r.rc[i][k] : 0; lo[i][k] = std::min(lo[i][k], v); hi[i][k] = std::max(hi[i][k], v); } }
      if (!m) { bool in = true;
        for (int i = 0; i < f.nfilt; i++) for (int k = 0; k < 9; k++) { int v = k == 8 ? ot.order[i] : k < ot.order[i] ? ot.rc[i][k] : 0, sp = hi[i][k] - lo[i][k]; in &= v >= lo[i][k] - sp && v <= hi[i][k] + sp; }
        // lines of a block under the noise of single precision
        double nr = 0; { int nfl = tns_nfilters(dt, f.bw), stop = Cfg::ne_of(dt, std::min(f.bw, 4)), nsub = dt >= 2 ? 3 : 2, n = nfl * nsub, b0 = 3 * (dt + 1);
          for (int s = 0; s < n; s++) { int a = b0 + (stop - b0) * s / n, b = b0 + (stop - b0) * (s + 1) / n; double en = 0, no = 0; for (int k = a; k < b; k++) en += X[k] * X[k], no += rms * bg[k] * rms * bg[k]; nr = std::max(nr, no / (en + 1e-30)); } }
        if (in) st.inconcl++;
        else if (nr > 1e9) { st.inconcl++; st.ill++; }
        else return fail("TNS nr %g rms %g (order %d,%d rc %d %d.. / %d %d..) differs from the specified analysis (order %d,%d rc %d %d.. / %d %d..) nn %d",
          nr, rms, ot.order[0], ot.order[1], ot.rc[0][0], ot.rc[0][1], ot.rc[1][0], ot.rc[1][1], et.order[0], et.order[1], et.rc[0][0], et.rc[0][1], et.rc[1][0], et.rc[1][1], nn); } }
    tns_filter(X, f);

    // fraction of lines dominated by the noise of single precision computations, at this gain
    auto illf = [&](double gi) { int n = 0; for (int k = 0; k < ne; k++) n += 4e-6 * rms * bg[k] * gi > .12; return (double)n / ne; };

    // -- global gain
    int acx = nbits_lastnz(ne) + 3 + c.hr + std::min((nbytes - 1) / 160, 2);
    int budget = 8 * nbytes - acx - nbits_bw(sr) - (1 + 10 * f.pitch) - 38 - tns_nbits(c, f) - 8 - 3;
    { int nominal = 0; std::vector<Sp> keep;
      for (double s : { 1., 4., 12. }) { keep = gains(X, bg, rms, nbytes, budget, f.g_idx, s, jitS, &nominal); if (!keep.empty()) break; st.pert++; }
      if (keep.empty() && illf(1 / g_of(f.g_idx - quant_gain_offset(sr, nbytes))) > .02) { st.inconcl++; st.ill++; keep.push_back(Sp{ -40, 40, -80, 80 }); }
      if (keep.empty()) return fail("global gain %d, specified estimation gives %d (budget %d bits, rms %g noise %.3f)", f.g_idx, nominal, budget, rms, illf(1 / g_of(f.g_idx - quant_gain_offset(sr, nbytes))));
      if (wild && !keep.empty()) { st.ill++; keep = { Sp{ -40, 40, -80, 80 } }; }
      sps = keep; if (sps.size() > 1) st.hyp++;
      double w = 0; for (auto &k : sps) w = std::max(w, k.ohi - k.olo); st.offw += w; st.offwmax = std::max(st.offwmax, w); }

    // -- quantisation, resolved on the observed values when within the margin
    double gi = 1 / g_of(f.g_idx - quant_gain_offset(sr, nbytes)), off = c.hr ? 0.5 : 0.375;
    std::vector<double> V(ne), eps(ne); std::vector<int> q(ne);
    int nq0 = 0; bool amb = false;
    for (int k = 0; k < ne; k++) V[k] = X[k] * gi;
    bool filt = f.order[0] || f.order[1]; double er = c.hr ? 8e-6 : 4e-6;
    for (int k = 0; k < ne; k++) {
      double nbh = 0; if (filt) for (int j = std::max(k - 10, 0); j <= k; j++) nbh = std::max(nbh, std::abs(V[j]));
      eps[k] = 6e-6 * std::max(std::abs(V[k]), nbh) + er * rms * bg[k] * gi + 1e-7;
      auto quant = [&](double x) { int v = (int)floor(std::abs(x) + off); return x < 0 ? -v : v; };
      int v = quant(V[k]), lo = quant(V[k] - eps[k]), hi = quant(V[k] + eps[k]);
      if (lo != hi) { st.q_amb++; amb = true;
        if (k < f.nq) { int o = f.lsb ? f.qf[k] : f.q[k], sg = V[k] < 0 ? -1 : 1;
          if (k == f.lsb_trunc) o = sg; else if (o) sg = o < 0 ? -1 : 1;
          if (o >= lo && o <= hi) v = o;
          else if (f.lsb && k >= f.lsb_end && o + sg >= lo && o + sg <= hi) v = o + sg; } }
      q[k] = v; if (v) nq0 = (k / 2) * 2 + 2;
    }
    SpecCost sc = spec_cost(c, nbytes, q, nq0, budget);
    bool same = std::max(sc.nq, 2) == f.nq && sc.lsb == (bool)f.lsb;
    for (int k = 0; k < 200 && !same && amb; k++) { // ambiguous coefficients, not observable
      std::vector<int> q2(q); int n2 = 0;
      if (k == 0) { for (int i = 0; i < ne; i++) { if (i >= f.nq && std::abs(V[i]) - eps[i] + off < 1) q2[i] = 0; if (q2[i]) n2 = (i / 2) * 2 + 2; } }
      else for (int i = 0; i < ne; i++) { if (i >= f.nq) { double a = std::abs(V[i]) + off + eps[i] * rng.g(); int v = (int)floor(std::max(a, 0.)); q2[i] = V[i] < 0 ? -v : v; }
        else if (k >= 60 && f.lsb) { double a = std::abs(V[i]) + off + eps[i] * rng.g(); int v = (int)floor(std::max(a, 0.)), pr = std::max(std::abs(f.q[i & ~1]), std::abs(f.q[i | 1])); v = V[i] < 0 ? -v : v;
          if (pr >= 4 && (std::abs(v) & ~1) == std::abs(f.q[i])) q2[i] = v; }
        if (q2[i]) n2 = (i / 2) * 2 + 2; }
      SpecCost s2 = spec_cost(c, nbytes, q2, n2, budget);
      if (std::max(s2.nq, 2) == f.nq && s2.lsb == (bool)f.lsb) { same = true; q = q2; sc = s2; } }
    bool illq = illf(gi) > .02;
    if (!same && illq) { st.inconcl++; st.ill++; return true; }
    if (!same) return fail("last coded line %d / lsb mode %d, specified %d / %d (budget %d bits, noise %.3f)", f.nq, f.lsb, sc.nq, sc.lsb, budget, illf(gi));
    st.lsb += f.lsb;
    if (sc.nq == 0) q[0] = q[1] = 0;
    for (int k = 0; k < f.nq; k++) {
      int want = q[k], got = f.q[k];
      if (f.lsb) { int pr = std::max(std::abs(q[k & ~1]), std::abs(q[k | 1])); if (pr >= 4) want = (want < 0 ? -1 : 1) * (std::abs(want) & ~1); }
      if (want != got) return fail("line %d coded %d, specified %d (value %.6f)", k, got, want, V[k]); }

    // -- noise level
    int nq = sc.nq; if (noise(V, nq, f.bw, 0) != f.nf) { bool m = false;
      for (double e : { 1e-4, -1e-4, 1e-3, -1e-3 }) m |= noise(V, nq, f.bw, e) == f.nf;
      for (int k = 0; k < 250 && !m; k++) { static const double sc[5] = { 1, .3, .1, .03, 3 }; std::vector<double> V2(V); for (int i = 0; i < ne; i++) V2[i] += eps[i] * rng.g() * sc[k % 5]; m |= noise(V2, nq, f.bw, 1e-4 * rng.g()) == f.nf; }
      if (!m && illq) { st.inconcl++; st.ill++; m = true; }
      if (!m) return fail("noise factor %d, specified %d", f.nf, noise(V, nq, f.bw, 0)); }

    // -- residual, and whole frame layout
    std::vector<uint8_t> out; std::string rw;
    bool fits = write_frame(c, f, q, [&](Writer &w, int left) {
      size_t ib = 0; auto obs = [&]() { return ib < f.rb.size() ? f.rb[ib] : 0; };
      if (f.lsb) {
        for (int i = 0; i < f.nq && left > 0; i += 2) {
          int v[2] = { std::abs(q[i]), std::abs(q[i + 1]) };
          if (std::max(v[0], v[1]) < 4) continue;
          for (int k = 0; k < 2; k++) {
            if (left-- > 0) w.bits(v[k] & 1, 1);
            if (v[k] == 1 && left-- > 0) w.bits(q[i + k] < 0, 1); } }
      } else {
        std::vector<double> R(f.nq); for (int i = 0; i < f.nq; i++) R[i] = (q[i] < 0 ? -V[i] : V[i]) - std::abs(q[i]);
        double stepv = c.hr ? 0.25 : 1;
        for (int it = 0; it < (c.hr ? 20 : 1) && left > 0; it++, stepv /= 2)
          for (int i = 0; i < f.nq && left > 0; i++) {
            if (!q[i]) continue;
            left--; st.resb++;
            bool up = R[i] >= 0; bool o = obs(); ib++;
            bool oup = q[i] < 0 ? !o : o;
            if (oup != up) { if (std::abs(R[i]) <= eps[i]) { up = oup; st.resb_amb++; }
              else if (rw.empty()) { char b[200]; snprintf(b, sizeof b, "residual bit of line %d pass %d codes %s, value %.7f quantised %d remainder %.7f", i, it, oup ? "up" : "down", V[i], q[i], R[i]); rw = b; } }
            w.bits(q[i] < 0 ? !up : up, 1);
            R[i] += up ? -stepv : stepv; } }
    }, out);
    if (!rw.empty()) return fail("%s", rw.c_str());
    if (!fits) return fail("coded data exceed the frame");
    if (memcmp(out.data(), data, nbytes)) { int k = 0; while (out[k] == data[k]) k++;
      return fail("frame bytes differ from the specified layout at byte %d of %d : %02x, specified %02x", k, nbytes, data[k], out[k]); }
    return true;
  }
};
}
