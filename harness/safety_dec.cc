// P01 : decoding of hostile streams, under sanitizers, on exactly sized memory blocks
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(8 * A().scale)), frames = 90;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 15485863 + item);
    std::unique_ptr<DecI> d(new DecI(c)); Hostile h(A().seed * 6151 + item, c); std::vector<uint8_t> b; if (!d->d) { fail("setup"); continue; }
    int prof = r.n(5), longloss = s % 4 == 3 ? 700 : 0;
    for (int n = 0; n < frames + longloss; n++) {
      int k = n < longloss + 20 && n >= 20 ? H_LOST : prof == 0 ? H_STRUCT : prof == 1 ? H_FLIP : -1;
      k = h.next(b, 0, k); int fm = longloss && r.n(3) ? 3 : r.n(4), st = r.n(3) ? 1 : 1 + r.n(8), nb = (int)b.size();
      context("%s stream %d frame %d kind %s nbytes %d format %s stride %d item %ld", name(c).c_str(), s, n, hostile_name(k), nb, fmt_name(fm), st, item);
      size_t z = ((size_t)(c.nsp() - 1) * st + 1) * fmt_bytes(fm); uint8_t *o = (uint8_t *)malloc(z), *in = nb ? (uint8_t *)malloc(nb) : nullptr; if (nb) memcpy(in, b.data(), nb);
      int ret = lc3_decode(d->d, in, nb, (lc3_pcm_format)fm, o, st);
      int w = fmt_bytes(fm); volatile int sum = 0; for (int i = 0; i < c.nsp(); i++) for (int k = 0; k < w; k++) if (o[(size_t)i * st * w + k] & 1) sum = sum + 1; // seen by MemorySanitizer, where not written
      if (ret != 0 && ret != 1) fail("lc3_decode() returned %d", ret);
      count("frames"); count(ret ? "concealed" : "good"); count(fmt("kind_%s", hostile_name(k)).c_str()); count(fmt("format_%s", fmt_name(fm)).c_str());
      if (nb) distinct(hash(b.data(), nb)); if (n == 60 && item % 97 == 1) sample(ctx());
      free(o); free(in);
      if (n % 41 == 40) { DecI *nd = new DecI(c, 0xff); d.reset(nd); }
    }
    count("streams");
  }
  return finish();
}
