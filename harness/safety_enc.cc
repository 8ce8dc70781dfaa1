// P02 : encoding of extreme signals, under sanitizers, on exactly sized memory blocks
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(10 * A().scale)), frames = 60;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 32452843 + item);
    EncI e(c, r.n(2) ? 0xff : -1); if (!e.e) { fail("setup"); continue; }
    std::unique_ptr<Sig> g(new Sig(r.u64(), c.pcm_hz, (s * 5 + (int)ci) % Sig::NMODES, r.n(3) ? 1 : -1)); int ext = r.n(4), fm = r.n(4), nb = pick_bytes_any(r, c); double bad = 1;
    for (int n = 0; n < frames; n++) {
      if (r.n(25) == 0) g.reset(new Sig(r.u64(), c.pcm_hz, -1, r.n(3) ? 1 : -1)), ext = r.n(4);
      if (r.n(8) == 0) fm = r.n(4); if (r.n(4) == 0) nb = pick_bytes_any(r, c); if (r.n(80) == 0) lc3_encoder_disable_ltpf(e.e);
      int st = r.n(3) ? 1 : 1 + r.n(8); Pcm p; double scale = ext == 0 ? 1e-30 : ext == 1 ? 1e-12 : 1; bool tiny = fm == 3 && ext < 2 && r.n(3) == 0;
      p.make(fm, c.nsp(), [&]() { double v = g->next(); return tiny ? v * scale : ext == 3 ? (v >= 0 ? 1. : -1.) : v; });
      context("%s stream %d frame %d signal %s%s format %s stride %d nbytes %d item %ld", name(c).c_str(), s, n, sig_name(g->mode), ext == 3 ? " (clipped)" : "", fmt_name(fm), st, nb, item);
      int w = fmt_bytes(fm); size_t z = ((size_t)(c.nsp() - 1) * st + 1) * w; uint8_t *in = (uint8_t *)malloc(z), *o = (uint8_t *)malloc(nb);
      for (int i = 0; i < c.nsp(); i++) memcpy(in + (size_t)i * st * w, &p.b[(size_t)i * w], w);
      if (fm == 1 && r.n(4) == 0) for (int i = 0; i < c.nsp(); i++) { int32_t v; memcpy(&v, in + (size_t)i * st * w, 4); v = r.n(2) ? 8388607 : -8388608; memcpy(in + (size_t)i * st * w, &v, 4); }
      int ret = lc3_encode(e.e, (lc3_pcm_format)fm, in, st, nb, o);
      if (ret) fail("lc3_encode() returned %d", ret);
      distinct(hash(o, nb)); count("frames"); count(fmt("signal_%s", sig_name(g->mode)).c_str()); count(fmt("format_%s", fmt_name(fm)).c_str()); if (tiny) count("underflow_level");
      if (n == 40 && item % 97 == 1) sample(ctx());
      free(in); free(o);
    }
    count("streams");
  }
  return finish();
}
