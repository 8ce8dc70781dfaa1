// P12 : every frame produced by the encoder is explained by the reference analysis
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(20 * A().scale)); ref::EncStat T{}; long weak = 0, cnt_frames = 0; bool lng = A().has("long");
  // long : few streams, of thousands of frames, up to more than 65536 of the shortest ones
  if (lng) streams = 1;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < (lng ? std::max<size_t>(8, 16 * A().scale) : cfgs.size()); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    Rng rc(A().seed * 7717 + item); const Cfg c = lng ? ci % 8 < 2 ? Cfg{ 0, 2500, 8000 << (ci & 1), 8000 << (ci & 1) } : cfgs[rc.n(cfgs.size())] : cfgs[ci]; int frames = !lng ? 110 : ci % 8 < 2 ? 70000 : 600 + rc.n(4000) * 10000 / c.dt_us / 4; Rng r(A().seed * 1000003 + item);
    if (!c.hr && c.pcm_hz != c.sr_hz && s % 2) continue;
    EncI e(c); if (!e.e) { fail("encoder setup refused for %s", name(c).c_str()); continue; }
    ref::Enc m(c, A().seed + item);
    int mode = (s + (int)ci * 5) % Sig::NMODES; std::unique_ptr<Sig> g(new Sig(r.u64(), c.pcm_hz, mode));
    int nb0 = pick_bytes(r, c), fm = r.n(4); bool vary = r.n(2), mixfmt = r.n(3) == 0, sw = r.n(3) == 0; bool nolt = r.n(6) == 0;
    int off = nolt ? r.n(3) * (lng ? 400 : 20) : -1; Pcm p; long fails0 = nfail();
    for (int n = 0; n < frames && nfail() == fails0; n++) {
      if (n == off) { lc3_encoder_disable_ltpf(e.e); m.bypass = true; }
      if ((sw && n % 37 == 36) || (lng && r.n(300) == 0)) g.reset(new Sig(r.u64(), c.pcm_hz, mode = r.n(Sig::NMODES)));
      if (mixfmt && r.n(5) == 0) fm = r.n(4);
      int nb = vary && r.n(4) == 0 ? pick_bytes(r, c) : nb0;
      p.make(fm, c.nsp(), [&]() { return g->next(); });
      std::vector<uint8_t> d(nb);
      context("%s stream %d frame %d signal %s format %s nbytes %d item %ld", name(c).c_str(), s, n, sig_name(mode), fmt_name(fm), nb, item);
      if (lc3_encode(e.e, (lc3_pcm_format)fm, p.b.data(), 1, nb, d.data())) { fail("lc3_encode() failed"); break; }
      count("frames"); count(fmt("format_%s", fmt_name(fm)).c_str());
      if (!m.step(p.x16.data(), p.x.data(), d.data(), nb)) fail("%s", m.why.c_str());
      distinct(hash(d.data(), nb));
      if (n == 40 && item % 211 == 3) sample(fmt("%s: frame of %d bytes explained", ctx(), nb));
    }
    auto &q = m.st; T.ltpf_present += q.ltpf_present; T.ltpf_active += q.ltpf_active; T.att += q.att; T.tns += q.tns; T.lsb += q.lsb; T.nn += q.nn; T.bwlow += q.bwlow;
    T.resb += q.resb; T.pert += q.pert; T.inconcl += q.inconcl; weak += q.weak; count("streams"); cnt_frames += frames;
    if (weak > 4 + cnt_frames / 20000) fail("pitch state not explained on %ld low level frames", weak);
  }
  count("pitch_present", T.ltpf_present); count("ltpf_active", T.ltpf_active); count("attacks", T.att); count("tns_active", T.tns); count("lsb_mode", T.lsb);
  count("near_nyquist", T.nn); count("bandwidth_reduced", T.bwlow); count("residual_bits", T.resb); count("ill_conditioned_fields", T.pert); count("inconclusive_fields", T.inconcl); count("weak_pitch_state", weak);
  return finish();
}
