// P07 : same frames whatever the format of the PCM samples
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(16 * A().scale)), frames = 60;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 982451653 + item); long f0 = nfail();
    // 5 twins : s16, s24, packed, float, mixed ; 2 twins of full 24 bits resolution
    std::vector<std::unique_ptr<EncI>> e; for (int k = 0; k < 8; k++) e.emplace_back(new EncI(c, k * 29)); if (!e[0]->e) { fail("setup"); continue; }
    Sig g(r.u64(), c.pcm_hz), g2(r.u64(), c.pcm_hz); int nb = pick_bytes(r, c), ns = c.nsp();
    for (int n = 0; n < frames && nfail() == f0; n++) {
      if (r.n(4) == 0) nb = pick_bytes(r, c); std::vector<int16_t> x(ns); std::vector<int32_t> x24(ns), y24(ns); std::vector<uint8_t> x3(3 * ns), y3(3 * ns); std::vector<float> xf(ns);
      for (int i = 0; i < ns; i++) { int v = (int)std::min(std::max(floor(g.next() * 32768 + .5), -32768.), 32767.); if (r.n(900) == 0) v = r.n(2) ? 32767 : -32768;
        x[i] = v; x24[i] = v * 256; x3[3 * i] = 0; x3[3 * i + 1] = v; x3[3 * i + 2] = v >> 8; xf[i] = v / 32768.f;
        int w = (int)std::min(std::max(floor(g2.next() * 8388608 + .5), -8388608.), 8388607.); if (r.n(900) == 0) w = r.n(2) ? 8388607 : -8388608; y24[i] = w; y3[3 * i] = w; y3[3 * i + 1] = w >> 8; y3[3 * i + 2] = w >> 16; }
      const void *px[4] = { x.data(), x24.data(), x3.data(), xf.data() }, *py[4] = { 0, y24.data(), y3.data(), 0 }; std::vector<uint8_t> o[8];
      context("%s frame %d signal %s nbytes %d item %ld", name(c).c_str(), n, sig_name(g.mode), nb, item);
      for (int k = 0; k < 8; k++) { o[k].assign(nb, k); int fm = k < 4 ? k : k == 4 ? r.n(4) : k == 5 ? 1 : k == 6 ? 2 : 1 + r.n(2);
        if (lc3_encode(e[k]->e, (lc3_pcm_format)fm, k < 5 ? px[fm] : py[fm], 1, nb, o[k].data())) fail("lc3_encode()"); }
      static const char *nm[8] = { "s16", "s24", "s24_3le", "float", "changing format", "s24", "s24_3le", "alternate s24 / s24_3le" };
      for (int k = 1; k < 5; k++) if (o[k] != o[0]) fail("frame of %s samples different from the one of the same s16 samples", nm[k]);
      for (int k = 6; k < 8; k++) if (o[k] != o[5]) fail("frame of %s samples different from the one of the same s24 samples", nm[k]);
      count("compared_frames", 6); distinct(hash(o[0].data(), nb)); distinct(hash(o[5].data(), nb)); if (n == 20 && item % 101 == 1) sample(ctx());
    }
    count("streams");
  }
  return finish();
}
