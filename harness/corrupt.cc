// P11 : corrupted frames are detected as specified, and equivalent to losses
#include "common.h"
using namespace vf;
static const char *reason[] = { "valid", "bandwidth", "lastnz", "tns", "sns", "escape", "overlap", "arithmetic" };
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(false); long item = 0;
  int streams = std::max(1, (int)(30 * A().scale)), frames = 60;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 104729 + item);
    DecI a(c), b(c); Hostile h(A().seed * 271 + item, c); std::vector<uint8_t> d, oa, ob; long f0 = nfail();
    if (!a.d || !b.d) { fail("decoder setup refused"); continue; }
    auto one = [&](const std::vector<uint8_t> &d, const char *what) {
      int nb = (int)d.size(); ref::Frame f = ref::parse(c, d.data(), nb); int fm = r.n(4); size_t z = (size_t)c.nsp() * fmt_bytes(fm); oa.assign(z, 1); ob.assign(z, 2);
      context("%s %s nbytes %d expected %s item %ld", name(c).c_str(), what, nb, reason[f.err], item);
      int ra = lc3_decode(a.d, d.data(), nb, (lc3_pcm_format)fm, oa.data(), 1);
      int rb = f.err ? lc3_decode(b.d, nullptr, 0, (lc3_pcm_format)fm, ob.data(), 1) : lc3_decode(b.d, d.data(), nb, (lc3_pcm_format)fm, ob.data(), 1);
      count("frames"); count(fmt("frames_%s", reason[f.err]).c_str()); distinct(hash(d.data(), nb));
      if (ra != !!f.err) { std::string x; for (auto v : d) x += fmt("%02x", v).c_str(); return fail("lc3_decode() returned %d, the frame is %s : %s", ra, reason[f.err], x.c_str()); }
      if (rb != !!f.err) return fail("lc3_decode() returned %d on a lost frame", rb);
      if (oa != ob) return fail("the frame (%s) is not handled as a %s frame", reason[f.err], f.err ? "lost" : "good");
      if (f.err && r.n(500) == 0) sample(ctx()); };
    for (int n = 0; n < frames && nfail() == f0; n++) {
      int k = h.next(d, 0, s % 3 == 0 ? H_FLIP : -1); if (d.empty()) continue;
      one(d, hostile_name(k));
      if (n % 12 == 3) { // all the single bit corruptions of the side data, some of the others
        h.next(d, 0, r.n(3) ? H_VALID : H_STRUCT); int nb = (int)d.size();
        for (int i = 0; i < 8 * nb && nfail() == f0; i += i < 112 ? 1 : 1 + r.n(40)) { auto e = d; e[nb - 1 - i / 8] ^= 1 << (i % 8); one(e, "single bit flip"); }
        for (int i = 0; i < 16 && nfail() == f0; i++) { auto e = d; e[i % nb] ^= 1 << r.n(8); one(e, "head flip"); } }
      if (n % 12 == 1) { // limits of the arithmetic code on the first symbol, and on random ones
        for (unsigned v : { 0xfffbffu, 0xfffc00u, 0xfffc01u, 0xffffffu, 0u, 1u }) { h.next(d, 0, r.n(2) ? H_VALID : H_STRUCT); if (d.empty()) continue; auto e = d; e[0] = v >> 16, e[1] = v >> 8, e[2] = v; one(e, "head of the arithmetic code"); if (r.n(2)) { for (size_t i = 3; i < e.size() / 2; i++) e[i] = r.n(2) ? 0 : 0xff; one(e, "head of the arithmetic code"); } } }
      if (n % 12 == 7) { // boundary values of the coded fields
        h.next(d, 0, H_VALID); int nb = (int)d.size(), sr = c.sr(), o = 0;
        auto put = [&](std::vector<uint8_t> &e, int pos, int k, unsigned v) { for (int i = 0; i < k; i++) { int p = pos + i; uint8_t m = 1 << (p % 8); uint8_t &B = e[nb - 1 - p / 8]; B = v >> i & 1 ? B | m : B & ~m; } };
        int nbw = ref::nbits_bw(sr), nlz = ref::nbits_lastnz(c.ne());
        for (int v = 0; v < 1 << nbw; v++) { auto e = d; put(e, 0, nbw, v); one(e, "bandwidth field"); }
        o = nbw; for (int v : { c.ne() / 2 - 2, c.ne() / 2 - 1, c.ne() / 2, (1 << nlz) - 1, 0 }) { auto e = d; put(e, o, nlz, v & ((1 << nlz) - 1)); one(e, "last line field"); }
        ref::Frame f = ref::parse(c, d.data(), nb); if (f.err) continue;
        int p = o + nlz + 1 + 8 + f.nfilt + 1 + 10; // SNS submode
        static const unsigned M1[] = { 14u * 2390004 - 1, 14u * 2390004, (1u << 25) - 1, 2390003, 2390004, 2u * 2390004 }, M2[] = { 15158271, 15158272, 15158272 + 1549823, 15158272 + 1549824, (1u << 24) - 1 };
        for (unsigned v : M1) for (int x = 0; x < 4; x++) { auto e = d; put(e, p, 1, 0); put(e, p + 1, 1, x & 1); put(e, p + 2, 1, x >> 1); put(e, p + 3, 25, v); one(e, "shape field"); }
        for (unsigned v : M2) for (int x = 0; x < 8; x++) { auto e = d; put(e, p, 1, 1); put(e, p + 1, 2, x & 3); put(e, p + 3, 1, x >> 2); put(e, p + 4, 24, v); one(e, "shape field"); }
      }
    }
    count("streams");
  }
  return finish();
}
