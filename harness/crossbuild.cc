// P27 : streams are portable between builds. Arguments : the shared objects of the builds
#include "common.h"
#include <dlfcn.h>
using namespace vf;
struct Build { const char *n; decltype(&lc3_hr_setup_encoder) se; decltype(&lc3_hr_setup_decoder) sd; decltype(&lc3_encode) en; decltype(&lc3_decode) de; decltype(&lc3_hr_encoder_size) es; decltype(&lc3_hr_decoder_size) ds; decltype(&lc3_encoder_disable_ltpf) dl; };
int main(int ac, char **av) {
  init(ac, av); std::vector<Build> B; for (auto *p : A().rest) { if (!strstr(p, ".so")) continue; void *h = dlopen(p, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; } const char *q = strrchr(p, '/');
#define S(x) (decltype(&x))dlsym(h, #x)
    B.push_back({ q ? q + 1 : p, S(lc3_hr_setup_encoder), S(lc3_hr_setup_decoder), S(lc3_encode), S(lc3_decode), S(lc3_hr_encoder_size), S(lc3_hr_decoder_size), S(lc3_encoder_disable_ltpf) }); }
  if (B.size() < 2) return 2; for (auto &a : B) for (auto &b : B) if (&a != &b && (void *)a.en == (void *)b.en) return 2;
  auto cfgs = vf::cfgs(true); long item = 0; int streams = std::max(1, (int)(4 * A().scale)); double worst = 0;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue; const Cfg &c = cfgs[ci]; Cfg ce = c; ce.pcm_hz = c.sr_hz; Rng r(A().seed * 50153 + item); auto &E = B[(s + ci) % B.size()]; long f0 = nfail();
    Mem me(E.es(c.hr, c.dt_us, c.sr_hz)); auto e = E.se(c.hr, c.dt_us, c.sr_hz, 0, me.p); if (!e) { fail("setup refused by %s", E.n); continue; } std::vector<std::unique_ptr<Mem>> md; std::vector<lc3_decoder_t> d;
    for (auto &b : B) { md.emplace_back(new Mem(b.ds(c.hr, c.dt_us, c.pcm_hz))); d.push_back(b.sd(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, md.back()->p)); if (!d.back()) fail("setup refused by %s", b.n); }
    int mode = r.n(Sig::NMODES), nb = pick_bytes(r, c), ns = c.nsp(), lossy = r.n(3) == 0; Sig g(r.u64(), c.sr_hz, mode, r.n(3) ? 1 : -1); if (r.n(4) == 0) E.dl(e); Pcm p; std::vector<std::vector<float>> y(B.size(), std::vector<float>(ns)); double lev = .02;
    for (int n = 0; n < 80 && nfail() == f0; n++) { if (r.n(8) == 0) nb = pick_bytes(r, c); p.make(3, ce.ns(), [&]() { return g.next(); }); std::vector<uint8_t> o(nb); context("%s encoded by %s frame %d signal %s nbytes %d item %ld", name(c).c_str(), E.n, n, sig_name(mode), nb, item);
      if (E.en(e, LC3_PCM_FORMAT_FLOAT, p.b.data(), 1, nb, o.data())) { fail("lc3_encode() failed"); break; } if (ref::parse(ce, o.data(), nb).err) { fail("the frame is not legal"); break; } bool lost = lossy && r.n(6) == 0;
      for (size_t k = 0; k < B.size(); k++) { int rc = B[k].de(d[k], lost ? nullptr : o.data(), nb, LC3_PCM_FORMAT_FLOAT, y[k].data(), 1); if (rc != lost) fail("lc3_decode() of %s returned %d", B[k].n, rc); count("decoded_frames"); }
      for (float v : y[0]) lev = std::max(lev, fabs((double)v)); for (size_t k = 1; k < B.size() && nfail() == f0; k++) { double m = 0; for (int i = 0; i < ns; i++) m = std::max(m, fabs((double)y[k][i] - y[0][i])); if (m > worst * lev) worst = m / lev; if (!(m <= 1e-4 * lev)) fail("outputs of %s and %s differ by %g (level %g)", B[0].n, B[k].n, m, lev); }
      distinct(hash(o.data(), nb)); if (item % 53 == 11 && n == 40) sample(ctx()); }
    count("streams"); }
  if (A().has("show")) printf("worst %g\n", worst); return finish();
}
