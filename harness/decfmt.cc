// P08 : decoded samples consistent across formats
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(12 * A().scale)), frames = 60;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 573259391 + item); long f0 = nfail(); int ns = c.nsp();
    std::vector<std::unique_ptr<DecI>> d; for (int k = 0; k < 5; k++) d.emplace_back(new DecI(c, k * 31)); if (!d[0]->d) { fail("setup"); continue; }
    Hostile h(A().seed * 98317 + item, c); int prof = r.n(4), loss = s % 4 == 1 ? 650 : 0; std::vector<uint8_t> b;
    for (int n = 0; n < frames + loss && nfail() == f0; n++) {
      int k = n >= 20 && n < 20 + loss ? H_LOST : prof == 0 ? H_VALID : prof == 1 ? H_STRUCT : -1; k = h.next(b, 0, k); int nb = (int)b.size(); std::vector<uint8_t> o[5]; int fx = r.n(4), rt[5];
      context("%s frame %d kind %s nbytes %d item %ld", name(c).c_str(), n, hostile_name(k), nb, item);
      for (int q = 0; q < 5; q++) { int fm = q < 4 ? q : fx; o[q].assign((size_t)ns * fmt_bytes(fm), 0x77); rt[q] = lc3_decode(d[q]->d, nb ? b.data() : nullptr, nb, (lc3_pcm_format)fm, o[q].data(), 1); if (rt[q] != rt[0]) fail("status depends on the format"); }
      if (o[4] != o[fx]) fail("samples in format %s depend on the format of the previous frames", fmt_name(fx));
      for (int i = 0; i < ns; i++) {
        double v16 = get(0, o[0].data(), i), v24 = get(1, o[1].data(), i), v3 = get(2, o[2].data(), i), vf = get(3, o[3].data(), i);
        if (v24 != v3) { fail("sample %d : s24 %.0f, s24_3le %.0f", i, v24, v3); break; }
        if (!(vf >= -1 && vf <= 1)) { fail("sample %d : float %g out of range", i, vf); break; }
        if (v24 < -8388608 || v24 > 8388607) { fail("sample %d : s24 %.0f out of range (sign extension)", i, v24); break; }
        double e16 = std::min(vf * 32768, 32767.), e24 = std::min(vf * 8388608, 8388607.);
        if (std::abs(v16 - e16) > .51) { fail("sample %d : s16 %.0f, float %.9g (%.2f)", i, v16, vf, e16); break; }
        if (std::abs(v24 - e24) > .51 + 1e-6 * std::abs(e24)) { fail("sample %d : s24 %.0f, float %.9g (%.2f)", i, v24, vf, e24); break; }
        if (v16 == 32767 || v16 == -32768) count("saturated"); }
      count("frames"); count("compared_samples", ns); count(fmt("kind_%s", hostile_name(k)).c_str()); distinct(hash(o[3].data(), o[3].size())); if (n == 20 && item % 71 == 1) sample(ctx());
    }
    count("streams");
  }
  return finish();
}
