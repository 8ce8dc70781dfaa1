// P05 : outputs only depend on the sequence of calls, whatever the memory
#include "common.h"
using namespace vf;
static void __attribute__((noinline)) dirty_stack(uint8_t v) { volatile uint8_t b[24000]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; }
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0; bool msan = false; msan = A().has("msan");
  int streams = std::max(1, (int)(6 * A().scale)), frames = msan ? 14 : 30;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 67867967 + item); long f0 = nfail();
    // -- memories : raw, poisoned by patterns, recycled from other instances, odd multiples of the alignment
    const int N = msan ? 1 : 5; size_t ze = lc3_hr_encoder_size(c.hr, c.dt_us, c.pcm_hz), zd = lc3_hr_decoder_size(c.hr, c.dt_us, c.pcm_hz);
    size_t zmax = 40000; std::vector<uint8_t *> me, md; std::vector<lc3_encoder_t> e; std::vector<lc3_decoder_t> d; std::vector<void *> raw; 
    for (int k = 0; k < N; k++) { size_t off = 8 * r.n(9);
      for (int x = 0; x < 2; x++) { size_t z = std::max(zmax, (x ? zd : ze)) ; uint8_t *p = (uint8_t *)malloc(msan ? (x ? zd : ze) : z + 128); raw.push_back(p);
        if (!msan) { if (k == 1) memset(p, 0xff, z + 128); if (k == 2) memset(p, 0, z + 128); if (k == 3) { for (size_t i = 0; i + 4 < z + 128; i += 4) { float f = 1e30f * (2 * r.u() - 1); memcpy(p + i, &f, 4); } }
          if (k == 4 || k == 0) { // used by another instance before
            Cfg o = cfgs[r.n((int)cfgs.size())]; std::vector<float> q(960, .7f), y(960); std::vector<uint8_t> by(o.max_bytes());
            for (auto &v : q) v = 2 * r.u() - 1;
            lc3_encoder_t oe = lc3_hr_setup_encoder(o.hr, o.dt_us, o.sr_hz, o.pcm_hz, p); for (int n = 0; n < 5; n++) { if (n == 2) lc3_encoder_disable_ltpf(oe); lc3_encode(oe, LC3_PCM_FORMAT_FLOAT, q.data(), 1, o.max_bytes(), by.data()); }
            if (x) { Hostile oh(r.u64(), o); lc3_decoder_t od = lc3_hr_setup_decoder(o.hr, o.dt_us, o.sr_hz, o.pcm_hz, p); for (int n = 0; n < 6; n++) { std::vector<uint8_t> bb; oh.next(bb); lc3_decode(od, bb.empty() ? nullptr : bb.data(), (int)bb.size(), LC3_PCM_FORMAT_FLOAT, y.data(), 1); } } } 
          p += k == 4 ? 0 : off; }
        if (x) md.push_back(p); else me.push_back(p); }
      e.push_back(lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, me[k])); d.push_back(lc3_hr_setup_decoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, md[k])); }
    Sig g(r.u64(), c.pcm_hz); Hostile h(A().seed * 49157 + item, c); int off = r.n(3) == 0 ? r.n(frames) : -1, restart = r.n(frames), nb = pick_bytes(r, c);
    for (int n = 0; n < frames && nfail() == f0; n++) {
      int fm = r.n(4); if (r.n(4) == 0) nb = pick_bytes(r, c); Pcm p; p.make(fm, c.nsp(), [&]() { return g.next(); });
      std::vector<uint8_t> o0(nb), b; h.next(b); std::vector<uint8_t> y0((size_t)c.nsp() * fmt_bytes(fm));
      if (msan) { // heap copies, fully initialised outputs required
        context("%s frame %d format %s nbytes %d item %ld", name(c).c_str(), n, fmt_name(fm), nb, item);
        uint8_t *o = (uint8_t *)malloc(nb), *y = (uint8_t *)malloc(y0.size()); 
        if (lc3_encode(e[0], (lc3_pcm_format)fm, p.b.data(), 1, nb, o)) fail("lc3_encode()");
        distinct(hash(o, nb)); volatile int sum = 0; for (int i = 0; i < nb; i++) if (o[i] & 1) sum = sum + 1;
        lc3_decode(d[0], b.empty() ? nullptr : b.data(), (int)b.size(), (lc3_pcm_format)fm, y, 1); for (size_t i = 0; i < y0.size(); i++) if (y[i] & 1) sum = sum + 1;
        lc3_decode(d[0], o, nb, (lc3_pcm_format)fm, y, 1); for (size_t i = 0; i < y0.size(); i++) if (y[i] & 1) sum = sum + 1;
        count("msan_frames", 3); free(o); free(y); continue; }
      if (n == restart && s % 2) for (int k = 1; k < N; k++) ; // (all instances restart together below)
      if (n == restart) for (int k = 0; k < N; k++) { // setup again : same as new. Instance 0 moves to a fresh memory
          if (k == 0) { raw.push_back(calloc(1, ze)); me[0] = (uint8_t *)raw.back(); raw.push_back(calloc(1, zd)); md[0] = (uint8_t *)raw.back(); }
          e[k] = lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, me[k]); d[k] = lc3_hr_setup_decoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, md[k]); if (off < n) off = -1; count("restarts"); }
      int r0 = 0; bool dup = r.n(2);
      for (int k = 0; k < N; k++) { if (n == off) lc3_encoder_disable_ltpf(e[k]);
        if (k) dirty_stack(k == 1 ? 0xff : k * 37 + n); std::vector<uint8_t> o(nb, k * 17); 
        context("%s frame %d format %s nbytes %d memory %d%s item %ld", name(c).c_str(), n, fmt_name(fm), nb, k, n >= restart ? " (restarted)" : "", item);
        if (lc3_encode(e[k], (lc3_pcm_format)fm, p.b.data(), 1, nb, o.data())) fail("lc3_encode()");
        if (k == 0) o0 = o; else if (o != o0) fail("the frame depends on the previous contents of the memory");
        std::vector<uint8_t> y(y0.size(), k * 3); if (k) dirty_stack(k == 2 ? 0 : 0xfe - k);
        const std::vector<uint8_t> &in = dup ? o0 : b; int rr = lc3_decode(d[k], in.empty() ? nullptr : in.data(), (int)in.size(), (lc3_pcm_format)fm, y.data(), 1);
        if (k == 0) y0 = y, r0 = rr; else if (y != y0 || rr != r0) fail("the decoded samples depend on the previous contents of the memory");
        count("compared_calls", 2); }
      distinct(hash(o0.data(), nb)); distinct(hash(y0.data(), y0.size())); if (n == 20 && item % 41 == 1) sample(ctx());
    }
    for (auto p : raw) free(p); count("streams");
  }
  return finish();
}
