// P13 / P19 ("resample") : delay, fidelity of the signal, effect of the bitrate, on analytic signals
#include "common.h"
#include "../ref/fidelity_bounds.h"
using namespace vf;
// Sum of sinusoids, known at any time
struct Tones { std::vector<double> f, a, p; double g = 1, ev = 0, ph = 0; double at(double t) const { double w = g; if (ev > 0) { double u = t / ev + ph; u -= floor(u); w *= .003 + exp(-6 * u) * (u < .02 ? .5 - .5 * cos(M_PI * u / .02) : 1); } double v = 0; if (ev > 0) { for (size_t k = 0; k < f.size(); k++) v += a[k] * sin(2 * M_PI * f[k] * t + p[k]); return v * w; } for (size_t k = 0; k < f.size(); k++) v += a[k] * sin(2 * M_PI * f[k] * t + p[k]); return v * w; }
  Tones(Rng &r, double top, int n, double peak, int shape) { double s = 0; for (int k = 0; k < n; k++) { double x = (k + .15 + .7 * r.u()) / n; f.push_back(60 + x * (top - 60)); a.push_back(shape == 0 ? 1 : shape == 1 ? pow(f.back() / 100, -.5) : pow(10, -1.5 * r.u())); p.push_back(6.28 * r.u()); s += a.back() * a.back(); } for (auto &v : a) v *= peak / sqrt(s); } };
struct Meas { double snr, gain, best; double lag; };
// signal decoded at `hz` from output sample `o0`, compared to the tones delayed by `delay` seconds
static Meas measure(const std::vector<float> &y, size_t o0, const Tones &t, double hz, double delay, bool lags) {
  Meas m{}; int n = (int)(y.size() - o0); 
  auto run = [&](double dl, double *g) { double e = 0, s = 0, xy = 0; for (int i = 0; i < n; i++) { double x = t.at((i + o0 + .5) / hz - dl), d = y[o0 + i] - x; e += d * d; s += x * x; xy += x * y[o0 + i]; } if (g) *g = xy / s; return 10 * log10(s / (e + 1e-30)); };
  m.snr = run(delay, &m.gain); m.lag = 0; m.best = m.snr; if (lags) for (double d : { -3., -2., -1., -.5, -.25, .25, .5, 1., 2., 3. }) { double v = run(delay + d / hz, nullptr); if (v > m.best) m.best = v, m.lag = d; }
  return m; }
static bool show;
// "resample" : a voiced signal coded at the rate of the stream and from / to another rate, on the same sizes
struct Run { double snr, gain; std::vector<ref::Frame> f; };
static Run run_coding(const Cfg &c, int pe, int pd, const Tones &t, int nb, int nf, int n0, int fe) {
  Cfg ce = c, cd = c; ce.pcm_hz = pe; cd.pcm_hz = pd; EncI e(ce); DecI d(cd); int ne = ce.nsp(), nd = cd.nsp(); std::vector<float> y((size_t)nd * nf); Pcm p; std::vector<uint8_t> o(nb); long i0 = 0; Run r{};
  for (int n = 0; n < nf; n++) { p.make(fe, ne, [&]() { return t.at((i0++ + .5) / pe); });
    if (lc3_encode(e.e, (lc3_pcm_format)fe, p.b.data(), 1, nb, o.data()) || lc3_decode(d.d, o.data(), nb, LC3_PCM_FORMAT_FLOAT, &y[(size_t)nd * n], 1)) { fail("coding failed"); break; }
    Cfg cn = c; ref::Frame f = ref::parse(cn, o.data(), nb); if (f.err) fail("the frame is not legal for the rate of the stream"); if (n >= n0) r.f.push_back(f); count("frames"); count("parsed_frames"); }
  Meas m = measure(y, (size_t)nd * n0, t, pd, (double)lc3_hr_delay_samples(c.hr, c.dt_us, pd) / pd, false); r.snr = m.snr; r.gain = m.gain; return r; }
// level of the lost frames, and of what they hold outside of the bandwidth of the stream
static void losses(const Cfg &c, int pd, const Tones &t, int nb, Rng &r) {
  Cfg cd = c; cd.pcm_hz = pd; EncI e(c); DecI d(cd), n(c); if (!e.e || !d.d || !n.d) return fail("setup refused"); int ns = c.nsp(), nd = cd.nsp(), n0 = std::max(6, 60000 / c.dt_us) + r.n(20), nf = n0 + std::max(8, 40000 / c.dt_us); long i0 = 0; std::vector<float> yd((size_t)nd * nf), yn((size_t)ns * nf); Pcm p; std::vector<uint8_t> o(nb); bool lt = false;
  for (int k = 0; k < nf; k++) { p.make(3, ns, [&]() { return t.at((i0++ + .5) / c.sr_hz); }); bool lost = k >= n0; if (lc3_encode(e.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, nb, o.data())) return fail("coding failed"); Cfg cn = c; if (k == n0 - 1 || k == n0 - 2) { ref::Frame f = ref::parse(cn, o.data(), nb); lt |= f.pitch && f.ltpf; }
    int a = lc3_decode(d.d, lost ? nullptr : o.data(), nb, LC3_PCM_FORMAT_FLOAT, &yd[(size_t)nd * k], 1), b = lc3_decode(n.d, lost ? nullptr : o.data(), nb, LC3_PCM_FORMAT_FLOAT, &yn[(size_t)ns * k], 1); if (a != lost || b != lost) return fail("decoding returned %d, %d", a, b); count("lost_frames", lost); }
  auto rms = [](const std::vector<float> &y, size_t o) { double s = 0; for (size_t i = o; i < y.size(); i++) s += (double)y[i] * y[i]; return sqrt(s / (y.size() - o)); };
  double a = rms(yn, (size_t)ns * n0), b = rms(yd, (size_t)nd * n0); size_t o1 = (size_t)nd * n0, N = yd.size() - o1; double in = 0, out = 0; int K = 24;
  for (int h = 0; h < 2; h++) for (int k = 0; k < K; k++) { double lo = h ? .54 * c.sr_hz : 60, hi = h ? .5 * pd : .5 * c.sr_hz, f = lo + (hi - lo) * (k + r.u()) / K, x = 0, y = 0; for (size_t i = 0; i < N; i++) { double w = .5 - .5 * cos(2 * M_PI * (i + .5) / N), v = w * yd[o1 + i]; x += v * cos(2 * M_PI * f * i / pd), y += v * sin(2 * M_PI * f * i / pd); } (h ? out : in) += (x * x + y * y) * (hi - lo) / K; }
  double lv = 20 * log10((b + 1e-9) / (a + 1e-9)), im = 10 * log10((out + 1e-12) / (in + 1e-12)); count("loss_measures"); count("measures", 2); distinct(hash(&lv, 8, hash(&im, 8)));
  if (show) { printf("L %s lt %d level %.2f image %.2f\n", ctx(), lt, lv, im); return; }
  if (fabs(lv) > 1) fail("lost frames have not the level of the ones decoded at the rate of the stream : %.2f dB", lv); else if (im > -40) fail("lost frames have contents out of the bandwidth of the stream, at %.1f dB", im); }
static void voiced(const Cfg &c, int pe, int pd, Rng &r, long item) {
  Tones t(r, 1000, 1, 1, 0); t.f.clear(), t.a.clear(), t.p.clear(); double top = .85 * std::min(.5 * c.sr_hz, 16000.), f0 = 80 * pow(4., r.u()), s = 0; for (int h = 1; h * f0 < top; h++) t.f.push_back(h * f0), t.a.push_back(pow(h, -.5)), t.p.push_back(6.28 * r.u()), s += t.a.back();
  t.g = .9 / s; int mn = c.min_bytes(), nb = mn + r.n(std::max(1, std::min(c.max_bytes() - mn, 3 * mn))), n0 = std::max(6, 60000 / c.dt_us), nf = n0 + std::max(12, 160000 / c.dt_us), fe = r.n(4);
  context("%s encoded from %d Hz decoded to %d Hz frames of %d bytes, voiced at %.1f Hz item %ld", name(c).c_str(), pe, pd, nb, f0, item);
  Run a = run_coding(c, c.sr_hz, c.sr_hz, t, nb, nf, n0, fe), b = run_coding(c, pe, c.sr_hz, t, nb, nf, n0, fe), d = run_coding(c, c.sr_hz, pd, t, nb, nf, n0, fe);
  double pa = 0, pb = 0, aa = 0, ab = 0, ga = 0, gb = 0; int bw = 0, both = 0, near = 0, att = 0; size_t n = a.f.size(); if (n != b.f.size() || !n) return;
  for (size_t i = 0; i < n; i++) { const ref::Frame &x = a.f[i], &y = b.f[i]; bw += x.bw != y.bw; pa += x.pitch; pb += y.pitch; aa += x.pitch && x.ltpf; ab += y.pitch && y.ltpf; ga += x.g_idx; gb += y.g_idx; if (x.pitch && y.pitch) both++, near += abs(x.pidx - y.pidx) <= 4; }
  double de = std::min(a.snr, c.sr_hz == 8000 ? 20. : 45.) - std::min(b.snr, c.sr_hz == 8000 ? 20. : 45.), cap = aa == 0 ? (c.sr_hz == 8000 ? 40. : 60.) : 20., dd = std::min(a.snr, cap) - std::min(d.snr, cap), dg = (gb - ga) / n; count("voiced_measures"); count("measures", 3); distinct(hash(&de, 8, hash(&dd, 8)));
  if (pd > c.sr_hz) losses(c, pd, t, nb, r);
  if (show) { printf("V %s snr %.2f %.2f %.2f de %.2f dd %.2f bw %d present %.0f %.0f active %.0f %.0f both %d near %d gain %.2f\n", ctx(), a.snr, b.snr, d.snr, de, dd, bw, pa, pb, aa, ab, both, near, dg); return; }
  if (bw > .1 * n) fail("the bandwidth differs on %d frames of %zu from the one of the signal given at the rate of the stream", bw, n);
  else if (fabs(pa - pb) > .15 * n + 1) fail("pitch found on %.0f frames, on %.0f at the rate of the stream, of %zu", pb, pa, n);
  else if (both >= 5 && near < .85 * both) fail("the pitch differs on %d frames of %d from the one of the signal given at the rate of the stream", both - near, both);
  else if (c.sr_hz > 8000 && fabs(aa - ab) > .3 * n + 1) fail("long term filter active on %.0f frames, on %.0f at the rate of the stream, of %zu", ab, aa, n);
  else if (fabs(dg) > 2) fail("gains differ by %.2f from the ones of the signal given at the rate of the stream", dg);
  else if (de > (c.sr_hz == 8000 ? 7 : 2.5)) fail("SNR of %.1f dB, %.1f dB when given at the rate of the stream", b.snr, a.snr);
  else if (dd > (aa == 0 ? 2 : c.sr_hz == 8000 ? 11 : 8)) fail("SNR of %.1f dB, %.1f dB when decoded at the rate of the stream", d.snr, a.snr);
  else count("streams");
}
int main(int ac, char **av) {
  init(ac, av); long item = 0; bool rs = A().has("resample"); show = A().has("show"); auto cfgs = vf::cfgs(false); std::vector<Cfg> cf;
  struct Set { Cfg c; int pe, pd; }; std::vector<Set> sets;
  for (auto &c : cfgs) if (!rs) sets.push_back({ c, c.sr_hz, c.sr_hz }); else for (int pe : { 8000, 16000, 24000, 32000, 48000, 96000 }) for (int pd : { 8000, 16000, 24000, 32000, 48000, 96000 }) if (pe >= c.sr_hz && pd >= c.sr_hz && (c.hr ? pe >= 48000 && pd >= 48000 : pe <= 48000 && pd <= 48000) && (pe > c.sr_hz || pd > c.sr_hz)) sets.push_back({ c, pe, pd });
  int streams = std::max(1, (int)(10 * A().scale));
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < sets.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = sets[ci].c; int pe = sets[ci].pe, pd = sets[ci].pd; Rng r(A().seed * 99991 + item); Cfg ce = c, cd = c; ce.pcm_hz = pe; cd.pcm_hz = pd;
    if (rs && s % 2) { voiced(c, pe, pd, r, item); continue; }
    double top = (c.hr ? .5 * c.sr_hz : std::min(.5 * c.sr_hz, 20000.)) * (rs ? .85 : .94); int shape = (int)((s + ci) % 3); Tones t(r, top, 40, .12, shape);
    // kinds of streams : sizes in progression, at -18 dBFS; any sizes; lower levels; repeated attacks
    enum { PROGR, SIZES, LEVEL, ATTACK, FEW }; int kind = s % 4 == 3 ? PROGR : (int)r.n(rs ? 5 : 6) - 1; if (kind < 0) kind = PROGR;
    if (kind == FEW) { t = Tones(r, top, 1 + r.n(3), .3, shape); double q = 0; for (auto a : t.a) q += a; t.g = .97 / q * (r.n(2) ? 1 : pow(10, -r.u())); }
    if (kind == LEVEL) t.g = pow(10, -3 * r.u()); if (kind == ATTACK) t.ev = .02 + .06 * r.u(), t.ph = r.u();
    int off = s % 4 == 3 ? 1500 : 0; int n0 = std::max(6, 60000 / c.dt_us), nf = n0 + std::max(8, (int)(80000 / c.dt_us)) + off; if (off) n0 += off;
    int mn = c.min_bytes(), mx = c.max_bytes(); double hist[5] = { 0 }; int kx = 0; const FidBound *fb = nullptr; for (auto &b : fid_bounds) if (b.hr == c.hr && b.dt_us == c.dt_us && b.sr_hz == c.sr_hz) fb = &b; if (!fb) { fail("no bound"); continue; } long f0 = nfail(); Meas last{};
    bool lt = r.n(3) == 0; std::vector<int> sizes; if (off) sizes = { mx }; else for (int k = 0; k < 5; k++) sizes.push_back((int)(mn * pow((double)mx / mn, k / 4.) + .5)); if (kind == SIZES) { for (int &z : sizes) z = (int)(mn * pow((double)mx / mn, r.u()) + .5); std::sort(sizes.begin(), sizes.end()); } double top_ = -99;
    for (int nb : sizes) {
      EncI e(ce); DecI d(cd); if (!lt) lc3_encoder_disable_ltpf(e.e); int fe = kind == FEW || (kind == LEVEL && t.g < .1) ? 3 : r.n(4), fd = 3; int ne = ce.nsp(), nd = cd.nsp(); std::vector<float> y((size_t)nd * nf); Pcm p; std::vector<uint8_t> o(nb); long i0 = 0; Cfg cn = c;
      for (int n = 0; n < nf; n++) { p.make(fe, ne, [&]() { return t.at((i0++ + .5) / pe); });
        context("%s encoded from %d Hz decoded to %d Hz frame %d of %d bytes format %s spectrum %d item %ld", name(c).c_str(), pe, pd, n, nb, fmt_name(fe), shape, item);
        if (lc3_encode(e.e, (lc3_pcm_format)fe, p.b.data(), 1, nb, o.data()) || lc3_decode(d.d, o.data(), nb, LC3_PCM_FORMAT_FLOAT, &y[(size_t)nd * n], 1)) { fail("coding failed"); break; }
        if (rs && n % 8 == 0) { ref::Frame f = ref::parse(cn, o.data(), nb); if (f.err) fail("the frame is not legal for the rate of the stream"); count("parsed_frames"); }
        count("frames"); }
      int ds = lc3_hr_delay_samples(c.hr, c.dt_us, pd); double delay = (double)ds / pd;
      Meas m = measure(y, (size_t)nd * n0, t, pd, delay, true); count("measures"); if (nb == mx) last = m; distinct(hash(&m, sizeof m));
      int k = off ? 4 : kx++; double kp = 4 * log((double)nb / mn) / log((double)mx / mn) + 1e-3; int ki = std::min(3, (int)kp); double lo = kind == SIZES ? std::min(fb->snr[rs][ki], kp >= 4 ? fb->snr[rs][4] : fb->snr[rs][ki + 1]) : fb->snr[rs][k]; if (kind == LEVEL) lo = std::min(lo - 4, 52.); if (kind == ATTACK) lo = std::min(lo - 6, rs ? 18. : 36.); if (kind == FEW) lo = std::min(lo - 6, rs ? 36. : 200.);
      if (show) printf("M %s pe %d pd %d shape %d nb %d kbps %.0f snr %.2f gain %.4f best %.2f lag %.2f off %d lt %d kind %d lev %.4f lo %.1f\n", name(c).c_str(), pe, pd, shape, nb, nb * 8e3 / c.dt_us, m.snr, m.gain, m.best, m.lag, off, lt, kind, t.g, lo);
      hist[k] = m.snr; if (show) continue;
      context("%s encoded from %d Hz decoded to %d Hz, frames of %d bytes, spectrum %d : SNR %.2f dB (bound %.0f), gain %.4f, best at %.2f samples of the announced delay (%.2f dB) after %d frames item %ld", name(c).c_str(), pe, pd, nb, shape, m.snr, lo, m.gain, m.lag, m.best, n0, item);
      if (!(m.snr >= lo)) fail("the decoded signal is not faithful");
      else if (m.snr > (kind == FEW ? 30 : 18) && !(fabs(m.gain - 1) < .015 + pow(10, -m.snr / 20))) fail("the decoded signal has not the level of the input");
      else if (m.snr > (kind == FEW ? 45 : 15) && fabs(m.lag) > (m.snr < 28 ? .25 : 0)) fail("the delay is not the one announced, %d samples", ds);
      else if (!off && k >= 2 && kind != SIZES && kind != ATTACK && kind != FEW && hist[k - 2] < 40 && !(hist[k] > hist[k - 2] + 2)) fail("the quality does not increase with the bitrate : %.1f dB at a fifth of the rate", hist[k - 2]);
      // few sinusoids : up to the accuracy of the calculation
      else if (kind == FEW) { double mg = c.hr && c.dt_us == 10000 && c.sr_hz == 96000 ? 9 : 4; if (m.snr < std::min(top_, rs ? 40. : 126.) - mg) fail("the quality decreases : %.1f dB with smaller frames", top_); else count("ordered_measures"); top_ = std::max(top_, m.snr); }
      // frames of 2.5 ms are not considered : the specified rate control lacks of bits on some frames
      else if (c.dt_us > 2500) { double mg = c.dt_us == 5000 ? 6 : 2.5; if (m.snr < top_ - mg) fail("the quality decreases : %.1f dB with smaller frames", top_); else count("ordered_measures"); if (m.snr < 48) top_ = std::max(top_, m.snr); }
    }
    if (item % 37 == 3) sample(fmt("%s : SNR %.1f dB, gain %.4f", ctx(), last.snr, last.gain)); if (nfail() == f0) count("streams");
  }
  return finish();
}
