// P10 : decoded samples are the ones of the reference synthesis, on any stream
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0; double worst = 0; std::string wctx;
  int streams = std::max(1, (int)(16 * A().scale)); bool basic = A().has("basic"), lng = A().has("long");
  // long : few streams, of thousands of frames, up to more than 65536 of the shortest ones, and bursts of losses of hundreds
  if (lng) streams = 1;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < (lng ? std::max<size_t>(8, 16 * A().scale) : cfgs.size()); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    Rng rc(A().seed * 7717 + item); const Cfg c = lng ? ci % 8 < 2 ? Cfg{ 0, 2500, 8000 << (ci & 1), 8000 << (ci & 1) } : cfgs[rc.n(cfgs.size())] : cfgs[ci]; int frames = !lng ? 70 : ci % 8 < 2 ? 70000 : 600 + rc.n(4000) * 10000 / c.dt_us / 4; Rng r(A().seed * 7919 + item);
    DecI d(c, r.n(2) ? 0xaa : -1); if (!d.d) { if (basic) continue; fail("decoder setup refused for %s", name(c).c_str()); continue; }
    Hostile h(A().seed * 31337 + item, c); if (!h.e->e) continue;
    ref::Dec<double> R(c); ref::Dec<float> F(c); ref::Dec<double> J(c); J.jit = 1.2e-7; std::vector<double> y, yj; std::vector<float> yf; double hold = 0, cond = 0;
    // profile of the stream : losses, valid frames, hostile contents
    int prof = lng ? rc.n(6) : (s + ci) % 6, burst = 0; std::vector<uint8_t> b, o; long f0 = nfail(); int per = 3 + r.n(lng ? 300 : 20);
    for (int n = 0; n < frames && nfail() == f0; n++) {
      int kind = -1;
      switch (prof) { case 0: kind = H_VALID; break; case 1: kind = r.n(5) ? H_VALID : H_LOST; break;
        case 2: if (burst-- <= 0) { kind = H_VALID; if (n % per == per - 1) burst = 1 + (r.n(7) || n < frames / 3 ? r.n(14) : r.n(lng ? 2000 : 70)); } else kind = H_LOST; break;
        case 3: kind = H_STRUCT; break; case 4: kind = r.n(2) ? H_STRUCT : H_VALID; break; default: kind = -1; }
      int k = h.next(b, prof == 0 || prof == 2 ? (r.n(7) ? h.base : 0) : 0, kind);
      int fm = r.n(5) == 0 ? r.n(3) : 3, nb = (int)b.size(); o.assign((size_t)c.nsp() * fmt_bytes(fm), 0x55);
      context("%s stream %d frame %d kind %s nbytes %d format %s item %ld", name(c).c_str(), s, n, hostile_name(k), nb, fmt_name(fm), item);
      ref::Frame f; if (nb) f = ref::parse(c, b.data(), nb);
      int ret = lc3_decode(d.d, nb ? b.data() : nullptr, nb, (lc3_pcm_format)fm, o.data(), 1), want = !nb || f.err;
      if (ret != want) { fail("lc3_decode() returned %d instead of %d (reason %d)", ret, want, f.err); break; }
      R.step(nb ? &f : nullptr, nb, y); F.step(nb ? &f : nullptr, nb, yf); J.step(nb ? &f : nullptr, nb, yj);
      double e = 0, ce = 0; int at = 0; 
      for (int i = 0; i < c.nsp(); i++) ce = std::max({ ce, std::abs(y[i] - (double)yf[i]), std::abs(y[i] - yj[i]) });
      hold = std::max(hold * .7, R.peak); cond = std::max(cond * .8, ce);
      double tol = 1e-5 * hold + 25 * cond; static const double SC[4] = { 1, 256, 256, 1 / 32768. }, MX[4] = { 32767, 8388607, 8388607, 1 };
      if (!std::isfinite(R.peak)) { count("not_finite"); break; }
      for (int i = 0; i < c.nsp(); i++) { double g = get(fm, o.data(), i), v = std::min(std::max(y[i] * SC[fm], fm == 3 ? -1. : -MX[fm] - 1), MX[fm]);
        double x = std::abs(g - v) - (fm == 3 ? 1e-7 : .5001); x /= SC[fm]; if (!(x <= e)) e = x, at = i; }
      count("frames"); count(fmt("kind_%s", hostile_name(k)).c_str()); count(ret ? "concealed" : "good");
      if (R.l_act) count("ltpf_active"); if (f.lsb && !f.err) count("lsb_mode"); if (!f.err && nb && (f.order[0] || f.order[1])) count("tns_active"); if (R.plc_n > 7) count("long_loss");
      if (!(e <= tol)) fail("sample %d differs from the reference synthesis by %g, at level %g, tolerance %g (conditioning %g)", at, e, hold, tol, cond);
      if (tol > 1e-3 && e / tol > worst) worst = e / tol, wctx = ctx();
      distinct(hash(o.data(), o.size()));
      if (n == 40 && item % 173 == 5) sample(fmt("%s: peak %.0f, largest difference %.2g", ctx(), (double)R.peak, std::max(e, 0.)));
    }
    count("streams");
  }
  if (getenv("VF_DEBUG")) fprintf(stderr, "worst %g %s\n", worst, wctx.c_str());
  return finish();
}
