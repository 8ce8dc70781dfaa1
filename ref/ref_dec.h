// Reference decoder synthesis ; templated on the arithmetic so that the float
// instance gives an estimate of the conditioning of the double one.
#pragma once
#include "ref_common.h"
namespace ref {

inline double g_of(int g_int) { return pow(10.0, g_int / 28.0); }

template <class T> struct Dec {
  Cfg c; int dt, sr, srp, ns, nsp, ne, nd;
  std::vector<T> ola, spec, hist;      // hist : past output samples (LTPF)
  std::vector<T> xprev;                // past LTPF input samples
  uint16_t plc_seed = 24607; int plc_n = 0; T plc_a = 1;
  bool l_act = false; int l_pitch = 0, l_gi = 0;
  double jit = 0; uint64_t js = 88172645463325252ull;  // perturbation of the recursive filter, estimates its conditioning
  double noise() { js ^= js << 13; js ^= js >> 7; js ^= js << 17; return (double)(js >> 11) * 0x1p-52 - 1; }
  T peak = 0;                          // internal unclipped peak of last frame
  static const int HIST = 2400;

  explicit Dec(const Cfg &c) : c(c), dt(c.dt()), sr(c.sr()), srp(c.srp()), ns(c.ns()),
    nsp(c.nsp()), ne(c.ne()), nd(Cfg::delay2(c.dt_us, c.pcm_hz)),
    ola(nd), spec(nsp), hist(HIST), xprev(16) {}

  int width() const { static const int w[5] = { 4, 4, 6, 8, 12 }; return w[std::min(srp, 4)]; }

  // Spectrum of a valid frame, before the inverse transform
  void spectrum(const Frame &f, std::vector<T> &x) {
    x.assign(nsp, 0);
    T g = (T)g_of(f.g_idx - quant_gain_offset(sr, f.nbytes));
    for (int i = 0; i < f.nq; i++) x[i] = (T)f.xq[i] * g;
    bool zero = f.nq <= 2 && f.xq[0] == 0 && f.xq[1] == 0 && f.g_idx == 0 && f.nf == 7;
    int stop = Cfg::ne_of(dt, std::min(f.bw, 4));
    if (!zero) {
      static const int W[4] = { 1, 1, 2, 3 }; int w = W[dt];
      T lv = g * (T)(8 - f.nf) / 16; uint16_t sd = f.seed;
      std::vector<char> nz(ne + 8, 0);
      for (int i = 0; i < f.nq; i++) nz[i] = f.xq[i] != 0;
      for (int k = 6 * (dt + 1); k < stop; k++) {
        bool all = true;
        for (int j = k - w; j <= std::min(k + w, stop - 1); j++) all &= !nz[j];
        if (!all) continue;
        sd = 13849 + sd * 31821;
        x[k] = sd < 0x8000 ? lv : -lv;
      }
    }
    // TNS
    int nf = f.nfilt, end = stop; T st[9] = { 0 };
    for (int i = 0; i < nf; i++) {
      int a = i ? end / 2 : 3 * (dt + 1), b = i + 1 == nf ? end : end / 2, o = f.order[i];
      if (!o) continue;
      T rc[8];
      for (int k = 0; k < 8; k++) { static const int Q[9] = { 0, 0x1785, 0x2e3d, 0x4362, 0x563c, 0x6625, 0x7295, 0x7b1d, 0x7f74 };
        int q = k < o ? f.rc[i][k] : 0; T m = (T)Q[std::abs(q)] / 32768; rc[k] = q < 0 ? -m : m; }
      for (int n = a; n < b; n++) {
        T v = x[n];
        for (int k = o - 1; k >= 0; k--) { v -= rc[k] * st[k]; st[k + 1] = st[k] + rc[k] * v; if (jit) v += (T)(jit * noise() * (std::abs(v) + std::abs(st[k]))); }
        st[0] = v; x[n] = v;
      }
      for (int k = o; k < 9; k++) st[k] = 0;
    }
    // SNS
    int ci[16]; double cn[16], scf[16], e = 0;
    static const int K[4] = { 10, 10, 8, 6 };
    for (int i = 0; i < 16; i++) ci[i] = 0;
    mpvq_deenum(f.shape < 2 ? 10 : 16, K[f.shape], f.ls_a, f.idx_a, ci);
    if (f.shape == 0) mpvq_deenum(6, 1, f.ls_b, f.idx_b, ci + 10);
    for (int v : ci) e += v * v;
    for (int i = 0; i < 16; i++) cn[i] = ci[i] / sqrt(e);
    sns_scf(f.lfcb, f.hfcb, cn, SNS_GAINS[f.shape][f.gain], scf);
    auto gs = sns_interp(dt, sr, scf);
    const int *lim = BAND_LIM[dt][sr];
    for (size_t b = 0; b < gs.size(); b++) { T gg = (T)exp2(gs[b]);
      for (int k = lim[b]; k < lim[b + 1]; k++) x[k] *= gg; }
  }

  void run_ltpf(bool act, int pitch, int gi, std::vector<T> &y) {
    int w = width(), nt = nsp / (dt + 1);
    std::vector<T> in(xprev.size() + nsp); int P = (int)xprev.size();
    std::copy(xprev.begin(), xprev.end(), in.begin());
    std::copy(y.begin(), y.end(), in.begin() + P);
    std::vector<T> buf(HIST + nsp);
    std::copy(hist.begin(), hist.end(), buf.begin());
    std::copy(y.begin(), y.end(), buf.begin() + HIST);
    auto filt = [&](const T *x, T *o, int n0, int n1, int p, int g_i, int fade) {
      T g = (T)(0.4 - 0.05 * g_i); int pi = p / 4, pf = p % 4;
      for (int n = n0; n < n1; n++) {
        T s = 0;
        for (int i = 0; i < w; i++)
          s += (T)0.85 * g * (T)LTPF_CNUM[srp][std::min(g_i, 3)][i] * x[n - i]
             - g * (T)LTPF_CDEN[srp][pf][i] * o[n - pi + w / 2 - 1 - i];
        T a = fade == 0 ? (T)1 : fade > 0 ? (T)(n - n0) / (n1 - n0) : (T)1 - (T)(n - n0) / (n1 - n0);
        o[n] = x[n] - a * s;
      }
    };
    T *o = buf.data() + HIST; const T *x = in.data() + P;
    if (act && !l_act) filt(x, o, 0, nt, pitch, gi, 1);
    else if (!act && l_act) filt(x, o, 0, nt, l_pitch, l_gi, -1);
    else if (act && l_pitch == pitch) filt(x, o, 0, nt, pitch, gi, 0);
    else if (act) {
      filt(x, o, 0, nt, l_pitch, l_gi, -1);
      std::vector<T> mid(o - w, o + nt);
      filt(mid.data() + w, o, 0, nt, pitch, gi, 1);
    }
    if (act) filt(x, o, nt, nsp, pitch, gi, 0);
    std::copy(y.end() - P, y.end(), xprev.begin());
    std::copy(buf.end() - HIST, buf.end(), hist.begin());
    std::copy(buf.begin() + HIST, buf.end(), y.begin());
    l_act = act; l_pitch = pitch; l_gi = gi;
  }

  // f == NULL or f->err : concealment.  out : nsp samples, 16 bits scale, unclipped
  void step(const Frame *f, int nbytes, std::vector<T> &y) {
    std::vector<T> X;
    bool good = f && !f->err;
    if (good) { spectrum(*f, X); spec = X; plc_n = 0; plc_a = 1; }
    else {
      plc_n++;
      plc_a *= plc_n < 4 ? (T)1 : plc_n < 8 ? (T)0.9 : (T)0.85;
      X.assign(nsp, 0);
      for (int k = 0; k < ne; k++) {
        plc_seed = 16831 + plc_seed * 12821;
        X[k] = plc_a * (plc_seed < 0x8000 ? spec[k] : -spec[k]);
      }
    }
    std::vector<double> xd(X.begin(), X.end()), t(2 * nsp);
    imdct(xd.data(), nsp, t.data());
    double up = sqrt((double)nsp / ns); int Z = nsp - nd;
    const float *win = MDCT_WIN[dt][srp];
    y.assign(nsp, 0);
    peak = 0;
    for (int n = 0; n < 2 * nsp; n++) {
      T v = n < Z ? (T)0 : (T)(t[n] * up) * (T)win[2 * nsp - 1 - n];
      peak = std::max(peak, (T)std::abs(t[n] * up));
      t[n] = v;
    }
    for (int n = 0; n < nsp; n++) y[n] = (T)t[Z + n] + (n < nd ? ola[n] : (T)0);
    for (int n = 0; n < nd; n++) ola[n] = (Z + nsp + n < 2 * nsp ? (T)t[Z + nsp + n] : (T)0);
    if (nd > nsp) abort();
    if (!c.hr) {
      int pidx = good && f->pitch ? f->pidx : 0, p;
      if (pidx >= 440) p = 4 * (pidx - 283);
      else if (pidx >= 380) p = 4 * (pidx / 2 - 63) + 2 * (pidx % 2);
      else p = 4 * (pidx / 4 + 32) + pidx % 4;
      p = (p * (c.pcm_hz / 100) + 64) / 128;
      bool act = false; int gi = 0;
      if (good && f->pitch) {
        int nb = nbytes * 8;                       // per 10 ms equivalent
        int tb = dt == 3 ? nb : dt == 2 ? nb * 4 / 3 : dt == 1 ? nb * 2 - 160 : (6 * (nb * 4) + 5) / 10;
        // thresholds : 320 + 80*fs_idx etc.
        int fs = srp;
        if (tb < 320 + fs * 80) gi = 0; else if (tb < 400 + fs * 80) gi = 1;
        else if (tb < 480 + fs * 80) gi = 2; else if (tb < 560 + fs * 80) gi = 3; else gi = 4;
        act = f->ltpf && gi < 4;
      }
      run_ltpf(act, p, gi, y);
    }
    for (auto v : y) peak = std::max(peak, (T)std::abs(v));
  }
};
}
