// P04 : encoded frames are always decodable, of the requested size, whatever the history
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(60 * A().scale)), frames = 130;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 49979687 + item); Cfg cd = c; cd.pcm_hz = c.sr_hz;
    EncI e(c); DecI d(cd); if (!e.e || !d.d) { fail("setup"); continue; }
    int mode = (s * 7 + (int)ci) % Sig::NMODES; std::unique_ptr<Sig> g(new Sig(r.u64(), c.pcm_hz, mode, r.n(2) ? 1 : -1));
    int fm = r.n(4), nb = pick_bytes_any(r, c), vary = r.n(4); long f0 = nfail(); Pcm p; std::vector<uint8_t> o; std::vector<float> y(c.ns());
    for (int n = 0; n < frames && nfail() == f0; n++) {
      if (r.n(30) == 0) g.reset(new Sig(r.u64(), c.pcm_hz, mode = r.n(Sig::NMODES), r.n(2) ? 1 : -1));
      if (vary == 1 || (vary == 2 && r.n(5) == 0)) nb = pick_bytes_any(r, c);
      if (vary == 3) nb = n & 1 ? c.min_bytes() : r.n(2) ? c.max_bytes() : c.min_bytes() + r.n(10);
      if (s % 5 == 4 && n == 50) lc3_encoder_disable_ltpf(e.e);
      p.make(fm, c.nsp(), [&]() { return g->next(); }); o.assign(nb + 16, 0x5a);
      context("%s stream %d frame %d signal %s format %s nbytes %d item %ld", name(c).c_str(), s, n, sig_name(mode), fmt_name(fm), nb, item);
      if (lc3_encode(e.e, (lc3_pcm_format)fm, p.b.data(), 1, nb, o.data() + 8)) { fail("lc3_encode() failed"); break; }
      for (int i = 0; i < 8; i++) if (o[i] != 0x5a || o[8 + nb + i] != 0x5a) { fail("bytes written outside of the frame"); break; }
      ref::Frame f = ref::parse(c, o.data() + 8, nb);
      if (f.err) { std::string h; for (int i = 0; i < std::min(nb, 48); i++) h += fmt("%02x", o[8 + i]).c_str(); fail("the frame is not legal, reason %d : nq %d lsb %d gain %d tns %d %d pitch %d bw %d, %s", f.err, f.nq, f.lsb, f.g_idx, f.order[0], f.order[1], f.pitch, f.bw, h.c_str()); break; }
      int ret = lc3_decode(d.d, o.data() + 8, nb, LC3_PCM_FORMAT_FLOAT, y.data(), 1);
      if (ret) { fail("the frame is refused by the decoder : %d", ret); break; }
      count("frames"); distinct(hash(o.data() + 8, nb)); if (f.lsb) count("lsb_mode"); if (f.nq == c.ne()) count("full_spectrum"); if (f.res_bits == 0) count("no_bit_left"); if (nb == c.min_bytes()) count("minimal_size"); if (nb == c.max_bytes()) count("maximal_size"); if (f.g_idx == 255) count("maximal_gain");
      if (n == 40 && item % 397 == 1) sample(ctx());
    }
    count("streams");
  }
  return finish();
}
