// P29 : the work to process a frame is bounded, counted in basic blocks of the library
#include "common.h"
using namespace vf;
static long blocks; static bool guardn;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; guardn = true; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *) { blocks++; }
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0; bool show = A().has("show"); int streams = std::max(1, (int)(6 * A().scale)), frames = 120; double wd = 0, we = 0;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue; const Cfg &c = cfgs[ci]; Rng r(A().seed * 881 + item); Cfg ce = c; ce.pcm_hz = c.sr_hz; long f0 = nfail();
    // -- an ordinary frame of maximal size : loud noise
    long rd = 0, re = 0; { EncI e(c); DecI d(c); Pcm p; Sig g(5, c.pcm_hz, 2, 1); std::vector<uint8_t> o(c.max_bytes()); std::vector<float> y(c.nsp()); EncI e2(ce); Sig g2(5, c.sr_hz, 0, 1), g3(6, c.sr_hz, 2, 1);
      for (int n = 0; n < 12; n++) { p.make(3, c.nsp(), [&]() { return g.next(); }); blocks = 0; lc3_encode(e.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, c.max_bytes(), o.data()); if (n > 3) re = std::max(re, blocks);
        p.make(3, ce.ns(), [&]() { return n < 6 ? g2.next() : g3.next(); }); lc3_encode(e2.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, c.max_bytes(), o.data()); blocks = 0; lc3_decode(d.d, o.data(), c.max_bytes(), LC3_PCM_FORMAT_FLOAT, y.data(), 1); if (n > 3) rd = std::max(rd, blocks); }
      // or one of a voiced signal, with the post-filter
      EncI e4(ce); Sig g4(7, c.sr_hz, 0, .5); g4.f0 = 180; int q = c.hr ? c.min_bytes() : 40; for (int n = 0; n < 40; n++) { p.make(3, ce.ns(), [&]() { return g4.next(); }); lc3_encode(e4.e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, q, o.data()); blocks = 0; lc3_decode(d.d, o.data(), q, LC3_PCM_FORMAT_FLOAT, y.data(), 1); if (n > 3) rd = std::max(rd, blocks); } }
    if (!rd || !re) { fail("no block counted"); continue; }
    Hostile hz(r.u64(), c); DecI d(c); EncI e(c); std::vector<uint8_t> x, y((size_t)c.nsp() * 4); int mode = r.n(Sig::NMODES); std::unique_ptr<Sig> g(new Sig(r.u64(), c.pcm_hz, mode, r.n(2) ? 1 : -1)); Pcm p; int nb = pick_bytes(r, c); double md = 0, me = 0; int first = r.n(3) == 0 ? H_STRUCT : -1; long early = 0, late = 0;
    for (int n = 0; n < frames && nfail() == f0; n++) { int kd = hz.next(x, 0, first >= 0 && r.n(4) ? first : -1), fm = r.n(4);
      if (n == 60 && r.n(3) == 0) for (int k = 0; k < 700; k++) { blocks = 0; lc3_decode(d.d, nullptr, 0, (lc3_pcm_format)fm, y.data(), 1); md = std::max(md, (double)blocks / rd); }
      context("%s frame %d (%s) of %zu bytes item %ld", name(c).c_str(), n, hostile_name(kd), x.size(), item);
      blocks = 0; lc3_decode(d.d, x.empty() ? nullptr : x.data(), (int)x.size(), (lc3_pcm_format)fm, y.data(), 1); long b = blocks; count("frames_decoded"); distinct(hash(&b, 8) ^ ci); md = std::max(md, (double)b / rd);
      if (b > 2.5 * rd) { fail("decoding costs %ld basic blocks, %ld for an ordinary frame of maximal size", b, rd); break; }
      if (r.n(20) == 0) g.reset(new Sig(r.u64(), c.pcm_hz, mode = r.n(Sig::NMODES), r.n(2) ? 1 : -1)); if (r.n(4) == 0) nb = pick_bytes(r, c); p.make(fm, c.nsp(), [&]() { return g->next(); }); std::vector<uint8_t> o(nb);
      context("%s frame %d signal %s format %s of %d bytes item %ld", name(c).c_str(), n, sig_name(mode), fmt_name(fm), nb, item);
      blocks = 0; lc3_encode(e.e, (lc3_pcm_format)fm, p.b.data(), 1, nb, o.data()); b = blocks; count("frames_encoded"); distinct(hash(&b, 8) ^ ci); me = std::max(me, (double)b / re);
      if (b > 3 * re) { fail("encoding costs %ld basic blocks, %ld for an ordinary frame of maximal size", b, re); break; } }
    // -- same contents again and again : the work does not grow with the history
    if (nfail() == f0 && (s == 0 || r.n(3) == 0)) { long lim = 0, b = 0; int kd = r.n(3), cyc = 8, reps = c.dt_us == 2500 && !c.hr ? 400 : 120; std::vector<std::vector<uint8_t>> fr, pc(cyc); fr.resize(cyc); Pcm p; int fm = r.n(4), nbc = pick_bytes(r, c); std::unique_ptr<Sig> g2(new Sig(r.u64(), c.pcm_hz)); std::vector<uint8_t> o(nbc);
      DecI d2(c); EncI e2(c); Hostile h2(r.u64(), c); for (int i = 0; i < cyc; i++) { p.make(fm, c.nsp(), [&]() { return g2->next(); }); pc[i] = p.b; if (kd == 1) h2.next(fr[i]); }
      const char *what[] = {"losses", "the same frames", "the same samples"};
      for (int n = 0; n < cyc * reps; n++) { blocks = 0;
        if (kd == 0) lc3_decode(d2.d, nullptr, 0, (lc3_pcm_format)fm, y.data(), 1); else if (kd == 1) lc3_decode(d2.d, fr[n % cyc].empty() ? nullptr : fr[n % cyc].data(), (int)fr[n % cyc].size(), (lc3_pcm_format)fm, y.data(), 1);
        else lc3_encode(e2.e, (lc3_pcm_format)fm, pc[n % cyc].data(), 1, nbc, o.data());
        b = blocks; if (n < 4 * cyc) lim = std::max(lim, b); else if (b > lim + lim / 3 + 40) { context("%s after %d times %s item %ld", name(c).c_str(), n / cyc, what[kd], item); fail("processing costs %ld basic blocks, at most %ld for the same at the start", b, lim); break; } }
      count("repeated_frames", cyc * reps); }
    wd = std::max(wd, md); we = std::max(we, me); if (show) printf("Z %s rd %ld re %ld md %.2f me %.2f\n", name(c).c_str(), rd, re, md, me);
    count("streams"); if (item % 97 == 3) sample(fmt("%s : decoding %.2f, encoding %.2f of an ordinary frame (%ld, %ld blocks)", name(c).c_str(), md, me, rd, re));
  }
  return finish();
}
