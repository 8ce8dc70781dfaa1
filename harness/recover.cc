// P17 ("plc") : concealment.  P18 ("hostile") : bounded output, and recovery.  P27 ("join") : late joining of a stream
#include "common.h"
using namespace vf;

// Comparison of a decoder that met a trouble, with an undisturbed one
struct Joiner { const Cfg &c; int run0 = 0, since = 0, eqrun = 0; double glob = 1e-4, lev = 1; bool bad = false, synced = false; Joiner(const Cfg &c) : c(c) {}
  void restart() { run0 = since = eqrun = 0; synced = false; }
  // after each good frame
  bool step(const float *u, const float *d, int ns, bool ltpf, const char *what) { since++; run0 = ltpf ? 0 : run0 + 1; double df = 0; for (int i = 0; i < ns; i++) df = std::max(df, fabs((double)u[i] - d[i])), glob = std::max(glob, fabs((double)u[i]));
    double ms = since * c.dt_us / 1000., tol = 1e9; const char *why = "";
    int k0 = 1 + (10000 + c.dt_us - 1) / c.dt_us;
    if (synced) tol = 1e-6, why = "once joined"; else if (run0 >= k0) tol = 1e-6, why = "without pitch"; else if (ms > 1000) tol = 1e-5, why = "after a second"; else if (ms > 400) tol = 1e-3, why = "after 400 ms";
    if (tol < 9) count("joined_frames"); if (synced) count("synchronised_frames");
    if (run0 * c.dt_us >= 18000 + 2 * c.dt_us + 10000) synced = true;
    if (!(df <= tol * (tol < 1e-5 ? glob : lev) + 1e-7)) { fail("%s : the output does not join the one of the undisturbed decoder %s, %d frames later : difference of %g (level %g)", what, why, since, df, glob); bad = true; }
    return !bad; } };

static int decf(DecI &d, const std::vector<uint8_t> *f, std::vector<float> &y, int nb = 0) { return lc3_decode(d.d, f ? f->data() : nullptr, f ? (int)f->size() : nb, LC3_PCM_FORMAT_FLOAT, y.data(), 1); }

static void plc(const Cfg &c, Rng &r, long item) {
  Cfg ce = c; ce.pcm_hz = c.sr_hz; EncI e(ce); DecI U(c), D(c), T(c), V(c), W(c); int mode = r.n(3) ? r.n(Sig::NMODES) : 2; std::unique_ptr<Sig> g(new Sig(r.u64(), c.sr_hz, mode, r.n(3) ? 1 : -1)); int nb = pick_bytes(r, c); if (r.n(2)) lc3_encoder_disable_ltpf(e.e);
  Hostile hz(r.u64(), ce); int ns = c.nsp(); std::vector<float> u(ns), d(ns), t(ns); std::vector<int16_t> v(ns); std::vector<uint8_t> w3((size_t)ns * 4), o; Joiner J(c); std::vector<double> en; bool clean = false; long f0 = nfail();
  int losses = 0, lastgood = 0, G = 20 + r.n(40); double R = 0, gk = 1, pk = 0; int L = 0, k = 0; bool stationary = false; double first = 0;
  int rounds = 6, n = 0; Pcm p;
  for (int rd = 0; rd < rounds && nfail() == f0; rd++) {
    int G = rd == rounds - 1 ? 1300000 / c.dt_us : 10 + r.n(60); L = r.n(4) == 0 ? 1 + r.n(3) : r.n(3) ? 1 + r.n(80) : 300 + r.n(500); if (rd == 3 && r.n(3) == 0) L = 1500; if (rd == rounds - 1) L = 0;
    bool ramp = r.n(4) == 0; if (rd == 3) g.reset(new Sig(r.u64(), c.sr_hz, mode = r.n(3) ? r.n(Sig::NMODES) : 2, 1));
    for (int i = 0; i < G && nfail() == f0; i++, n++) { p.make(3, ce.ns(), [&]() { return g->next(); }); o.assign(nb, 0); lc3_encode(e.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, nb, o.data());
      context("%s round %d good frame %d signal %s nbytes %d item %ld", name(c).c_str(), rd, i, sig_name(mode), nb, item);
      auto f = ref::parse(ce, o.data(), nb); if (decf(U, &o, u) | decf(D, &o, d) | decf(T, &o, t) | lc3_decode(V.d, o.data(), nb, LC3_PCM_FORMAT_S16, v.data(), 1) | lc3_decode(W.d, o.data(), nb, LC3_PCM_FORMAT_S24, w3.data(), 1)) { fail("good frame refused"); break; }
      if (rd && !J.step(u.data(), d.data(), ns, f.ltpf, "loss")) break; if (memcmp(d.data(), t.data(), ns * 4)) { fail("losses and refused frames do not have the same effect on the next good frames"); break; }
      double s = 0; for (float x : d) s += (double)x * x; en.push_back(sqrt(s / ns)); count("good_frames"); distinct(hash(d.data(), ns * 4)); }
    if (nfail() != f0 || !L) break;
    R = 0; double mn = 9; for (size_t i = en.size() - std::min<size_t>(en.size(), 6); i < en.size(); i++) R = std::max(R, en[i]), mn = std::min(mn, en[i]); stationary = mode == 2 && mn > .5 * R && R > .02; gk = 1; first = 0; J.restart(); en.clear(); bool silent16 = false;
    for (int k = 0; k < L && nfail() == f0; k++) { p.make(3, ce.ns(), [&]() { return g->next(); }); o.assign(nb, 0); lc3_encode(e.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, nb, o.data()); decf(U, &o, u); if (k < 2) { double q = 0; for (float z : u) q += (double)z * z; R = std::max(R, sqrt(q / ns)); }
      context("%s round %d loss of %d frames, frame %d signal %s nbytes %d item %ld", name(c).c_str(), rd, L, k, sig_name(mode), nb, item);
      int rc = decf(D, nullptr, d, r.n(2) ? 0 : nb); if (rc != 1) { fail("lc3_decode() returned %d on a lost frame", rc); break; }
      // a refused frame is a loss
      std::vector<uint8_t> x; for (int q = 0; q < 20; q++) { hz.next(x, 0, H_RANDOM); if (ref::parse(ce, x.data(), x.size()).err) break; x.clear(); } if (x.empty()) x.assign(nb, 0xff); bool ref_ = ref::parse(ce, x.data(), x.size()).err;
      int rt = ref_ ? decf(T, &x, t) : decf(T, nullptr, t, 77); if (rt != 1) { fail("lc3_decode() returned %d on a refused frame", rt); break; } if (ref_) count("refused_frames");
      if (memcmp(d.data(), t.data(), ns * 4)) { fail("a refused frame is not concealed as a lost one"); break; }
      lc3_decode(V.d, nullptr, 0, LC3_PCM_FORMAT_S16, v.data(), 1); lc3_decode(W.d, nullptr, 0, LC3_PCM_FORMAT_S24, w3.data(), 1);
      double s = 0, pk = 0; for (float z : d) s += (double)z * z, pk = std::max(pk, fabs((double)z)); s = sqrt(s / ns); if (k >= 3) gk *= k < 7 ? .9 : .85; count("lost_frames"); distinct(hash(d.data(), ns * 4));
      if (!(s <= 5 * gk * R + 1e-8)) fail("the level of the concealed frame is %g, %g for the last good ones, and shall have been faded by %g", s, R, gk);
      if (k < 4) first += s / 4; if (k == 3 && stationary && L >= 4) { count("stationary_losses"); if (!(first > .15 * R)) fail("the first concealed frames are silent : %g, %g for the last good ones", first, R); }
      if (gk < 1e-9 && (s > 1e-7 || !std::isfinite(s))) fail("no silence after %d lost frames : %g", k, s);
      bool z = true; for (auto q : v) if (q) z = false; if (5 * gk * sqrt((double)ns) < .5 / 32768) { count("silent_frames"); if (!z) fail("no silence in 16 bits after %d lost frames", k); }
      if (gk * 5 * sqrt((double)ns) < .5 / 8388608) { for (int q = 0; q < 4 * ns; q++) if (w3[q]) { fail("no silence in 24 bits after %d lost frames", k); break; } }
    }
    // a loss of minutes : the counters of losses shall not wrap
    if (rd == 3 && r.n(8) == 0 && nfail() == f0) for (int k = 0, Z = ns <= 120 ? 66500 : 2500; k < Z; k++) { decf(D, nullptr, d), decf(T, nullptr, t, 77); lc3_decode(V.d, nullptr, 0, LC3_PCM_FORMAT_S16, v.data(), 1); lc3_decode(W.d, nullptr, 0, LC3_PCM_FORMAT_S24, w3.data(), 1);
      if (k < 200) continue; bool z = true; for (float q : d) z &= fabs(q) <= 1e-7; for (float q : t) z &= fabs(q) <= 1e-7; for (auto q : v) z &= !q; for (int q = 0; q < 4 * ns; q++) z &= !w3[q];
      context("%s round %d after %d + %d losses signal %s nbytes %d item %ld", name(c).c_str(), rd, L, k, sig_name(mode), nb, item); count("lost_frames_long"); if (!z) { fail("sound after a long loss"); break; } }
    count("losses"); n += L; if (item % 53 == 7 && rd == 2) sample(ctx());
  } }

static void hostile(const Cfg &c, Rng &r, long item) {
  Cfg ce = c; ce.pcm_hz = c.sr_hz; EncI e(ce); DecI U(c), D(c), D16(c), D24(c); int mode = r.n(Sig::NMODES), ns = c.nsp(); std::unique_ptr<Sig> g(new Sig(r.u64(), c.sr_hz, mode, r.n(3) ? 1 : -1)); int nb = pick_bytes(r, c); if (r.n(2)) lc3_encoder_disable_ltpf(e.e);
  Hostile hz(r.u64(), c); std::vector<float> u(ns), d(ns); std::vector<int16_t> v(ns); std::vector<int32_t> w(ns); std::vector<uint8_t> o, x; Joiner J(c); long f0 = nfail(); Pcm p; bool acc = false;
  for (int rd = 0; rd < 4 && nfail() == f0; rd++) { int H = r.n(4) ? 1 + r.n(60) : 1 + r.n(4), G = rd == 3 ? 1200000 / c.dt_us : 5 + r.n(100); int only = r.n(3) ? -1 : r.n(2) ? H_STRUCT : r.n(H_NKIND); if (r.n(6) == 0) only = H_LOST, H = 600 + r.n(300);
    for (int k = 0; k < H + G && nfail() == f0; k++) { p.make(3, ce.ns(), [&]() { return g->next(); }); o.assign(nb, 0); lc3_encode(e.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, nb, o.data()); int kd = -1; bool bad = k < H; if (bad) { kd = hz.next(x, 0, only); count(fmt("hostile_%s", hostile_name(kd)).c_str()); } const auto *f = bad ? &x : &o;
      context("%s round %d frame %d (%s) signal %s nbytes %zu item %ld", name(c).c_str(), rd, k, bad ? hostile_name(kd) : "good", sig_name(mode), f->size(), item);
      decf(U, &o, u); int r1 = decf(D, f->empty() ? nullptr : f, d), r2 = lc3_decode(D16.d, f->empty() ? nullptr : f->data(), (int)f->size(), LC3_PCM_FORMAT_S16, v.data(), 1), r3 = lc3_decode(D24.d, f->empty() ? nullptr : f->data(), (int)f->size(), LC3_PCM_FORMAT_S24, w.data(), 1);
      if (r1 < 0 || r1 > 1 || r1 != r2 || r1 != r3) { fail("return values %d %d %d", r1, r2, r3); break; } count(r1 ? "concealed_frames" : "decoded_frames"); if (!bad && r1) { fail("good frame refused after hostile ones"); break; }
      bool sat = false; for (int i = 0; i < ns; i++) { double q = d[i]; if (!(fabs(q) <= 1)) { fail("sample %d of value %g", i, q); break; } if (w[i] < -8388608 || w[i] > 8388607) { fail("24 bits sample %d of value %d", i, w[i]); break; } sat |= fabs(q) == 1;
        if (fabs(q * 8388608 - w[i]) > 1.51 || fabs(q * 32768 - v[i]) > 1.01) { fail("sample %d : float %g, s16 %d, s24 %d", i, q, v[i], w[i]); break; } }
      if (sat) count("saturated_frames"); distinct(hash(d.data(), 4 * ns));
      if (bad) J.restart(); else { auto f = ref::parse(ce, o.data(), nb); J.step(u.data(), d.data(), ns, f.ltpf, "hostile frames"); } }
    if (item % 53 == 9 && rd == 2) sample(ctx()); count("recoveries"); } }

static void join(const Cfg &c, Rng &r, long item) {
  Cfg ce = c; ce.pcm_hz = c.sr_hz; EncI e(ce); DecI U(c); int mode = r.n(Sig::NMODES), ns = c.nsp(); std::unique_ptr<Sig> g(new Sig(r.u64(), c.sr_hz, mode, r.n(3) ? 1 : -1)); int nb = pick_bytes(r, c), vary = r.n(3) == 0; if (r.n(2)) lc3_encoder_disable_ltpf(e.e);
  std::vector<float> u(ns), d(ns); std::vector<uint8_t> o; Pcm p; long f0 = nfail(); struct Late { std::unique_ptr<DecI> d; Joiner j; }; std::vector<Late> late; int N = 1600000 / c.dt_us;
  for (int n = 0; n < N && nfail() == f0; n++) { if (n == 3 || (n < N / 3 && r.n(N / 10) == 0 && late.size() < 5)) late.push_back({ std::unique_ptr<DecI>(new DecI(c)), Joiner(c) });
    if (vary && r.n(4) == 0) nb = pick_bytes(r, c); if (r.n(150) == 0) g.reset(new Sig(r.u64(), c.sr_hz, mode = r.n(Sig::NMODES), 1));
    p.make(3, ce.ns(), [&]() { return g->next(); }); o.assign(nb, 0); lc3_encode(e.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, nb, o.data()); auto f = ref::parse(ce, o.data(), nb);
    context("%s frame %d signal %s nbytes %d item %ld", name(c).c_str(), n, sig_name(mode), nb, item); if (decf(U, &o, u)) { fail("good frame refused"); break; } count("frames"); distinct(hash(u.data(), 4 * ns));
    for (auto &l : late) { if (decf(*l.d, &o, d)) { fail("good frame refused by a late decoder"); break; } count("late_frames"); if (!l.j.step(u.data(), d.data(), ns, f.ltpf, "late join")) break; } 
    if (item % 53 == 11 && n == 100) sample(ctx()); } }

int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0; int m = A().has("plc") ? 0 : A().has("hostile") ? 1 : 2;
  int streams = std::max(1, (int)((m == 0 ? 4 : m == 1 ? 6 : 6) * A().scale));
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) { if (!mine(item) || timeup() || toomany()) continue; const Cfg &c = cfgs[ci]; Rng r(A().seed * 40503 + item * 7 + m);
    if (m == 0) plc(c, r, item); else if (m == 1) hostile(c, r, item); else join(c, r, item); count("streams"); }
  return finish();
}
