// P09 : interleaved channels equivalent to separate ones
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(10 * A().scale)), frames = 40;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 15487469 + item); long f0 = nfail(); int ns = c.nsp(), nch = 2 + r.n(7); if (r.n(12) == 0) nch = 9 + r.n(24); int fm = r.n(4), w = fmt_bytes(fm);
    std::vector<std::unique_ptr<EncI>> ea, eb; std::vector<std::unique_ptr<DecI>> da, db; std::vector<Sig> g; std::vector<std::unique_ptr<Hostile>> h;
    for (int k = 0; k < nch; k++) { ea.emplace_back(new EncI(c)); eb.emplace_back(new EncI(c)); da.emplace_back(new DecI(c)); db.emplace_back(new DecI(c)); g.emplace_back(r.u64(), c.pcm_hz); if (k < 2) h.emplace_back(new Hostile(r.u64(), c)); }
    int nb = pick_bytes(r, c);
    for (int n = 0; n < frames && nfail() == f0; n++) {
      if (r.n(4) == 0) nb = pick_bytes(r, c); if (r.n(10) == 0) fm = r.n(4), w = fmt_bytes(fm);
      std::vector<uint8_t> x((size_t)ns * nch * w), y((size_t)ns * nch * w, 0x33); std::vector<Pcm> p(nch);
      for (int k = 0; k < nch; k++) { p[k].make(fm, ns, [&]() { return g[k].next(); }); for (int i = 0; i < ns; i++) memcpy(&x[((size_t)i * nch + k) * w], &p[k].b[(size_t)i * w], w); }
      std::vector<std::vector<uint8_t>> ys(nch);
      for (int k = 0; k < nch; k++) { std::vector<uint8_t> a(nb), b(nb), in;
        context("%s frame %d channel %d/%d format %s nbytes %d item %ld", name(c).c_str(), n, k, nch, fmt_name(fm), nb, item);
        lc3_encode(ea[k]->e, (lc3_pcm_format)fm, x.data() + (size_t)k * w, nch, nb, a.data()); lc3_encode(eb[k]->e, (lc3_pcm_format)fm, p[k].b.data(), 1, nb, b.data());
        if (a != b) fail("frame of the interleaved channel differs from the one of the same mono samples");
        if (k < 2 && n % 3) { h[k]->next(in); } else in = b;
        ys[k].assign((size_t)ns * w, 0x44); int r1 = lc3_decode(da[k]->d, in.empty() ? nullptr : in.data(), (int)in.size(), (lc3_pcm_format)fm, y.data() + (size_t)k * w, nch), r2 = lc3_decode(db[k]->d, in.empty() ? nullptr : in.data(), (int)in.size(), (lc3_pcm_format)fm, ys[k].data(), 1);
        if (r1 != r2) fail("status of the interleaved channel");
        count("channel_frames", 2); distinct(hash(a.data(), nb)); distinct(hash(ys[k].data(), ys[k].size())); }
      for (int k = 0; k < nch; k++) for (int i = 0; i < ns; i++) if (memcmp(&y[((size_t)i * nch + k) * w], &ys[k][(size_t)i * w], w)) { fail("channel %d sample %d : interleaved output differs from the mono one", k, i); k = nch; break; }
      if (n == 20 && item % 71 == 1) sample(ctx());
    }
    count("streams");
  }
  // -- channels of very wide buffers (multichannel arrays, structures)
  int wide = std::max(1, (int)(2 * A().scale));
  for (int s = 0; s < wide; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 25487469 + item); long f0 = nfail(); int ns = c.nsp(), fm = r.n(4), w = fmt_bytes(fm), st = r.n(3) == 0 ? 33 + r.n(100) : r.n(2) ? 128 + r.n(200) : 300 + r.n(2000), k = r.n(st), nb = pick_bytes(r, c);
    EncI ea(c), eb(c); DecI da(c), db(c); Sig g(r.u64(), c.pcm_hz); std::vector<uint8_t> x((size_t)ns * st * 4), y;
    for (auto &b : x) b = (uint8_t)r.u64();
    for (int n = 0; n < 6 && nfail() == f0; n++) { if (n == 3) fm = r.n(4), w = fmt_bytes(fm), k = r.n(st);
      Pcm p; p.make(fm, ns, [&]() { return g.next(); }); for (int i = 0; i < ns; i++) memcpy(&x[((size_t)i * st + k) * w], &p.b[(size_t)i * w], w);
      context("%s frame %d channel %d/%d format %s nbytes %d item %ld", name(c).c_str(), n, k, st, fmt_name(fm), nb, item); std::vector<uint8_t> a(nb), b(nb), z((size_t)ns * w), x0 = x;
      lc3_encode(ea.e, (lc3_pcm_format)fm, x.data() + (size_t)k * w, st, nb, a.data()); lc3_encode(eb.e, (lc3_pcm_format)fm, p.b.data(), 1, nb, b.data());
      if (a != b) fail("frame of the interleaved channel differs from the one of the same mono samples");
      if (x != x0) fail("encoding modifies the samples");
      bool lost = n == 4; y = x; int r1 = lc3_decode(da.d, lost ? nullptr : b.data(), nb, (lc3_pcm_format)fm, y.data() + (size_t)k * w, st), r2 = lc3_decode(db.d, lost ? nullptr : b.data(), nb, (lc3_pcm_format)fm, z.data(), 1);
      if (r1 != r2) fail("status of the interleaved channel");
      for (int i = 0; i < ns; i++) { uint8_t *q = &y[((size_t)i * st + k) * w]; if (memcmp(q, &z[(size_t)i * w], w)) { fail("sample %d : interleaved output differs from the mono one", i); break; } memcpy(q, &x[((size_t)i * st + k) * w], w); }
      if (y != x) fail("samples of the other channels are modified");
      count("channel_frames", 2); count("wide_channel_frames", 2); distinct(hash(a.data(), nb)); distinct(hash(z.data(), z.size())); }
    count("streams");
  }
  return finish();
}
