// P20 : disabling LTPF removes the pitch data only, from then on, for the instance only
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0, weak = 0; int streams = std::max(1, (int)(12 * A().scale)), frames = 100;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue; const Cfg &c = cfgs[ci]; Rng r(A().seed * 22091 + item); Cfg cd = c; cd.pcm_hz = c.sr_hz;
    // a : disabled at frame `off`, b : never disabled, a2 : second instance doing as a, on another memory
    EncI a(c), b(c); DecI d(cd); ref::Enc m(c, A().seed + item); static const int MD[] = { 0, 1, 9, 17, 0, 5, 3, 2 }; int mode = MD[(s + ci) % 8]; std::unique_ptr<Sig> g(new Sig(r.u64(), c.pcm_hz, mode, .3 + .7 * r.u()));
    int off = r.n(4) == 0 ? 0 : 5 + r.n(60), nb = pick_bytes(r, c), vary = r.n(3) == 0, fm = r.n(4), again = r.n(3) == 0 ? off + 20 : -1; long f0 = nfail(); Pcm p; std::vector<float> y(c.ns()); std::vector<std::vector<uint8_t>> fresh; std::vector<Pcm> fin; std::vector<int> fnb;
    bool model = !c.hr || s % 2; int pitch_b = 0;
    for (int n = 0; n < frames && nfail() == f0; n++) {
      if (n == off) { lc3_encoder_disable_ltpf(a.e); m.bypass = true; count("disabled"); } if (n > off && r.n(20) == 0) lc3_encoder_disable_ltpf(a.e);
      if (vary && r.n(4) == 0) nb = pick_bytes(r, c); if (r.n(60) == 0) g.reset(new Sig(r.u64(), c.pcm_hz, mode = MD[r.n(8)], .5));
      p.make(fm, c.nsp(), [&]() { return g->next(); }); std::vector<uint8_t> oa(nb), ob(nb);
      context("%s frame %d, disabled at frame %d, signal %s format %s nbytes %d item %ld", name(c).c_str(), n, off, sig_name(mode), fmt_name(fm), nb, item);
      if (lc3_encode(a.e, (lc3_pcm_format)fm, p.b.data(), 1, nb, oa.data()) || lc3_encode(b.e, (lc3_pcm_format)fm, p.b.data(), 1, nb, ob.data())) { fail("lc3_encode() failed"); break; }
      auto fa = ref::parse(c, oa.data(), nb), fb = ref::parse(c, ob.data(), nb); count("frames", 2); distinct(hash(oa.data(), nb));
      if (fa.err || fb.err) { fail("the frame is not legal"); break; }
      if (n < off && oa != ob) { fail("frames of twin encoders differ, none disabled"); break; }
      if (n >= off) { count("frames_disabled"); if (fa.pitch) { fail("pitch data present after the LTPF has been disabled"); break; } }
      if (fb.pitch) { pitch_b++; count("frames_with_pitch"); } if (n >= off && fb.pitch) count("frames_pitch_removed");
      int rc = lc3_decode(d.d, oa.data(), nb, LC3_PCM_FORMAT_FLOAT, y.data(), 1); if (rc) { fail("the frame is refused by the decoder"); break; }
      if (model && !m.step(p.x16.data(), p.x.data(), oa.data(), nb)) { fail("%s", m.why.c_str()); break; } if (model) count("frames_explained");
      if (fin.size() < 20) fin.push_back(p), fnb.push_back(nb);
      if (item % 211 == 5 && n == off + 5) sample(ctx());
    }
    // -- a new setup enables it again, the other instances are not concerned
    if (nfail() == f0) { EncI x(c); lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, a.m.p); for (size_t k = 0; k < fin.size(); k++) { std::vector<uint8_t> o1(fnb[k]), o2(fnb[k]); lc3_encode(a.e, (lc3_pcm_format)fin[k].f, fin[k].b.data(), 1, fnb[k], o1.data()); lc3_encode(x.e, (lc3_pcm_format)fin[k].f, fin[k].b.data(), 1, fnb[k], o2.data()); context("%s frame %zu after a new setup item %ld", name(c).c_str(), k, item); count("frames_after_setup", 2); if (o1 != o2) { fail("the frame differs from the one of a new encoder, after LTPF was disabled and a new setup"); break; } } count("streams"); }
    weak += m.st.weak;
  }
  count("weak_pitch_state", weak); return finish();
}
