// P03 : extents of the reads and writes, refused calls without effect
#include "common.h"
#include <climits>
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0;
  int streams = std::max(1, (int)(4 * A().scale)), frames = 48;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Cfg cd = c; Rng r(A().seed * 86028121 + item); long f0 = nfail();
    EncI e(c), e2(c); DecI d(cd), d2(cd); Hostile h(A().seed * 24593 + item, cd); if (!e.e || !e2.e || !d.d || !d2.d) { fail("setup"); continue; }
    Sig g(r.u64(), c.pcm_hz); int nsp = c.nsp();
    for (int n = 0; n < frames && nfail() == f0; n++) {
      int fm = (n + s) % 4, w = fmt_bytes(fm), st = r.n(4) == 0 ? 1 : 1 + r.n(16), nb = pick_bytes(r, c), off = r.n(9);
      context("encode %s format %s stride %d nbytes %d offset %d item %ld", name(c).c_str(), fmt_name(fm), st, nb, off, item);
      // input : exactly sized, noise between the samples
      Pcm p; p.make(fm, nsp, [&]() { return g.next(); });
      size_t z = ((size_t)(nsp - 1) * st + 1) * w; int al = fm == 2 ? r.n(4) : 0; std::vector<uint8_t> base;
      uint8_t *in = (uint8_t *)malloc(z + al) + al; for (size_t i = 0; i < z; i++) in[i] = r.u64() >> 11;
      if (fm == 3) for (size_t i = 0; i + 4 <= z; i += 4) { float v = 1e30f; memcpy(in + i, &v, 4); }
      for (int i = 0; i < nsp; i++) memcpy(in + (size_t)i * st * w, &p.b[(size_t)i * w], w);
      base.assign(in, in + z);
      std::vector<uint8_t> o(nb + 32, 0x5a), o2(nb, 0xa5), ob;
      uint8_t *xo = (uint8_t *)malloc(nb + off);   // odd address, redzone right after the frame
      // refused calls, before
      int bad[] = { 0, 19, -1, c.max_bytes() + 1, INT_MAX, INT_MIN, 18 };
      for (int k = 0; k < 2; k++) { int b = bad[r.n(7)]; o.assign(nb + 32, 0x5a);
        if (lc3_encode(e.e, (lc3_pcm_format)fm, in, st, b, o.data()) != -1) fail("size %d accepted", b);
        if (lc3_encode(nullptr, (lc3_pcm_format)fm, in, st, nb, o.data()) != -1) fail("null encoder accepted");
        for (auto v : o) if (v != 0x5a) { fail("refused call (%d) writes to the output", b); break; } count("refused_calls", 2); }
      memset(xo, r.u64(), nb + off);
      int r1 = lc3_encode(e.e, (lc3_pcm_format)fm, in, st, nb, xo + off), r2 = lc3_encode(e2.e, (lc3_pcm_format)fm, p.b.data(), 1, nb, o2.data());
      if (r1 || r2) { fail("lc3_encode() failed"); break; }
      if (memcmp(in, base.data(), z)) fail("the input samples have been modified");
      if (memcmp(xo + off, o2.data(), nb)) fail("frame different with a stride, an alignment of the buffers, other samples in between, or refused calls before");
      // guards
      memset(o.data(), 0x5a, o.size()); { EncI f1(c), f2(c); std::vector<uint8_t> a(nb + 32, 0x5a), b(nb + 32, 0xa5);
        lc3_encode(f1.e, (lc3_pcm_format)fm, in, st, nb, a.data() + 16); lc3_encode(f2.e, (lc3_pcm_format)fm, in, st, nb, b.data() + 16);
        for (int i = 0; i < nb + 32; i++) { bool inside = i >= 16 && i < nb + 16; if (inside ? a[i] != b[i] : a[i] != 0x5a || b[i] != 0xa5) { fail("byte %d of %d %s", i - 16, nb, inside ? "is not written" : "is written"); break; } } }
      count("encode_calls"); distinct(hash(o2.data(), nb));
      free(in - al); free(xo);
      // -- Decoding
      std::vector<uint8_t> b; int k = h.next(b); int nd = (int)b.size(); std::vector<uint8_t> keep = b; nsp = cd.nsp();
      fm = r.n(4); w = fmt_bytes(fm); st = r.n(4) == 0 ? 1 : 1 + r.n(16); z = ((size_t)(nsp - 1) * st + 1) * w; al = fm == 2 ? r.n(4) : 0;
      context("decode %s frame %d kind %s format %s stride %d nbytes %d item %ld", name(cd).c_str(), n, hostile_name(k), fmt_name(fm), st, nd, item);
      uint8_t *po = (uint8_t *)malloc(z + al) + al, *q = (uint8_t *)malloc(z + 64); std::vector<uint8_t> c1((size_t)nsp * w, 0x11); uint8_t pat = 0x5a ^ (r.n(2) * 0xff);
      uint8_t *xi = (uint8_t *)malloc(nd + off + 1); memcpy(xi + off, b.data(), nd);
      memset(po, pat, z); memset(q, pat, z + 64);
      for (int k = 0; k < 2; k++) { int bb[] = { 0, 19, -1, c.max_bytes() + 1, INT_MAX / 2, -400, 1 }; int x = bb[r.n(7)];
        if (lc3_decode(d.d, xi, x, (lc3_pcm_format)fm, q, st) != -1) fail("size %d accepted", x);
        if (lc3_decode(nullptr, xi, nd, (lc3_pcm_format)fm, q, st) != -1) fail("null decoder accepted");
        for (size_t i = 0; i < z + 64; i++) if (q[i] != pat) { fail("refused call (%d) writes to the output", x); break; } count("refused_calls", 2); }
      int q1 = lc3_decode(d.d, nd ? xi + off : nullptr, nd, (lc3_pcm_format)fm, po, st), q2 = lc3_decode(d2.d, nd ? b.data() : nullptr, nd, (lc3_pcm_format)fm, c1.data(), 1);
      if (q1 != q2) fail("status %d instead of %d with a stride", q1, q2);
      if (nd && memcmp(xi + off, keep.data(), nd)) fail("the input frame has been modified");
      for (int i = 0; i < nsp; i++) if (memcmp(po + (size_t)i * st * w, &c1[(size_t)i * w], w)) { fail("sample %d different with a stride or refused calls before", i); break; }
      for (size_t i = 0; i < z; i++) if ((i / w) % st && po[i] != pat) { fail("byte written between the samples, at %zu", i); break; }
      { DecI f1(cd), f2(cd); std::vector<uint8_t> u((size_t)nsp * w + 64, 0), v((size_t)nsp * w + 64, 0xff); size_t zz = (size_t)nsp * w;
        lc3_decode(f1.d, nd ? b.data() : nullptr, nd, (lc3_pcm_format)fm, u.data() + 32, 1); lc3_decode(f2.d, nd ? b.data() : nullptr, nd, (lc3_pcm_format)fm, v.data() + 32, 1);
        for (size_t i = 0; i < zz + 64; i++) { bool inside = i >= 32 && i < zz + 32; if (inside ? u[i] != v[i] : u[i] != 0 || v[i] != 0xff) { fail("output byte %ld of %zu %s", (long)i - 32, zz, inside ? "is not written" : "is written"); break; } } }
      count("decode_calls"); distinct(hash(c1.data(), c1.size()));
      if (n == 20 && item % 31 == 1) sample(ctx());
      free(po - al); free(q); free(xi); nsp = c.nsp();
    }
  }
  return finish();
}
