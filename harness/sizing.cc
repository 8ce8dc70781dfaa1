// P15 : sizes and bitrates, against exact integer arithmetic, on dense sweeps
#include "common.h"
using namespace vf;
int main(int ac, char **av) {
  init(ac, av); long item = 0; auto cfgs = vf::cfgs(false); Rng r(A().seed * 31 + A().shard);
  for (auto &c : cfgs) for (int nch = 1; nch <= 8; nch++, item++) { if (!mine(item) || timeup() || toomany()) continue;
    int m1 = lc3_hr_frame_bytes(c.hr, c.dt_us, c.sr_hz, 0); context("%s item %ld", name(c).c_str(), item);
    // the documented minimum, or half of it in high-resolution mode (as implemented, DESIGN.md)
    if (m1 != c.min_bytes() && !(c.hr && m1 == c.min_bytes() / 2)) { fail("minimum size %d", m1); continue; }
    int64_t mn = nch * m1, mx = nch * c.max_bytes(); long f0 = nfail(), n = 0; int prev = -1;
    // exact : floor(bitrate * dt / 8e6)
    auto one = [&](int64_t b) { n++; int64_t e = b * c.dt_us / 8000000; e = std::min(std::max(e, mn), mx); int v = lc3_hr_frame_block_bytes(c.hr, c.dt_us, c.sr_hz, nch, (int)b);
      if (v != e) fail("block of %d bytes for %d channels at %ld bps, %ld expected", v, nch, (long)b, (long)e);
      if (nch == 1 && (lc3_hr_frame_bytes(c.hr, c.dt_us, c.sr_hz, (int)b) != e || (!c.hr && lc3_frame_bytes(c.dt_us, (int)b) != e))) fail("frame size at %ld bps, %ld expected", (long)b, (long)e);
      if (!c.hr && lc3_frame_block_bytes(c.dt_us, nch, (int)b) != e) fail("lc3_frame_block_bytes() at %ld bps, %ld expected", (long)b, (long)e); return v; };
    context("%s %d channels item %ld", name(c).c_str(), nch, item);
    int64_t top = std::min<int64_t>((mx + 4) * 8000000 / c.dt_us, (int64_t)(400000 * A().scale * nch) + 400000), st = 1 + r.n(1);
    for (int64_t b = 0; b <= top && nfail() == f0; b += st) { int v = one(b); if (v < prev) fail("the size decreases with the bitrate at %ld bps", (long)b); if (v != prev) distinct(hash(&v, 4) ^ hash(&c.dt_us, 4) ^ nch * 7919 ^ c.sr_hz); prev = v; }
    // around every step of the size, everywhere
    for (int64_t k = 0; k <= mx + 3 && nfail() == f0; k++) for (int64_t d = -2; d <= 2; d++) { int64_t b = k * 8000000 / c.dt_us + d; if (b >= 0) one(b); }
    for (int k = 0; k < 20000 && nfail() == f0; k++) one((int64_t)(r.u64() >> (33 + r.n(20)))); one(INT32_MAX); one(INT32_MAX - 1); one(INT32_MAX / 3);
    count("bitrates", n);
    if (nch > 1) continue;
    // -- bitrate of a size : the smallest that gives this size
    long m = 0; int pb = -1;
    auto res = [&](int64_t nb) { m++; int64_t e = (nb * 8000000 + c.dt_us - 1) / c.dt_us; e = std::min<int64_t>(e, INT32_MAX); int v = lc3_hr_resolve_bitrate(c.hr, c.dt_us, c.sr_hz, (int)nb); if (v != e) fail("bitrate %d for %ld bytes, %ld expected", v, (long)nb, (long)e); if (!c.hr && lc3_resolve_bitrate(c.dt_us, (int)nb) != e) fail("lc3_resolve_bitrate() of %ld bytes", (long)nb);
      if (nb >= mn && nb <= mx && lc3_hr_frame_bytes(c.hr, c.dt_us, c.sr_hz, v) != nb) fail("bitrate of %ld bytes does not lead back to it", (long)nb);
      if (nb > mn && nb <= mx && lc3_hr_frame_bytes(c.hr, c.dt_us, c.sr_hz, v - 1) != nb - 1) fail("bitrate of %ld bytes is not the smallest one", (long)nb); return v; };
    for (int64_t nb = 0; nb < 20000 && nfail() == f0; nb++) { int v = res(nb); if (v <= pb) fail("bitrate does not increase at %ld bytes", (long)nb); pb = v; }
    for (int n2 = 2; n2 <= 8; n2++) for (int64_t nb = n2 * mn; nb <= n2 * mx; nb++) if (lc3_hr_frame_block_bytes(c.hr, c.dt_us, c.sr_hz, n2, lc3_hr_resolve_bitrate(c.hr, c.dt_us, c.sr_hz, (int)nb)) != nb) { fail("bitrate of a block of %ld bytes of %d channels does not lead back to it", (long)nb, n2); break; }
    for (int k = 0; k < 20000 && nfail() == f0; k++) res((int64_t)(r.u64() >> (33 + r.n(20)))); res(INT32_MAX); res(INT32_MAX - 7); res(INT32_MAX / 320); res(INT32_MAX / 800); res(INT32_MAX / 1600); res(INT32_MAX / 3200); res(INT32_MAX / 3200 + 1);
    count("sizes", m);
    // -- the sizes given are accepted by the codec
    EncI e(c); DecI d(c); std::vector<float> x(c.ns()), y(c.ns()); for (auto &v : x) v = r.u() - .5;
    for (int k = 0; k < 60 && nfail() == f0; k++) { int b = k == 0 ? 0 : k == 1 ? INT32_MAX : k == 2 ? LC3_MIN_BITRATE : k == 3 ? LC3_HR_MAX_BITRATE : r.n(800000), nb = lc3_hr_frame_bytes(c.hr, c.dt_us, c.sr_hz, b); std::vector<uint8_t> o(nb > 0 ? nb : 1);
      context("%s at %d bps, %d bytes item %ld", name(c).c_str(), b, nb, item);
      if (lc3_encode(e.e, LC3_PCM_FORMAT_FLOAT, x.data(), 1, nb, o.data()) || lc3_decode(d.d, o.data(), nb, LC3_PCM_FORMAT_FLOAT, y.data(), 1)) fail("size refused by the codec"); count("coded_frames"); if (k == 10 && A().shard == 0) sample(ctx()); }
  }
  return finish();
}
