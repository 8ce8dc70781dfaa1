// P24 : the C++ classes give the results of the C interface, on separated channels
#include "common.h"
#include <lc3_cpp.h>
using namespace vf;
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
// n samples of one channel taken from an interleaved block
static std::vector<uint8_t> take(const std::vector<uint8_t> &b, int f, int ch, int nch, int ns) { int w = fmt_bytes(f); std::vector<uint8_t> o((size_t)ns * w); for (int i = 0; i < ns; i++) memcpy(&o[(size_t)i * w], &b[((size_t)i * nch + ch) * w], w); return o; }
static const lc3::PcmFormat F[4] = { lc3::PcmFormat::kS16, lc3::PcmFormat::kS24, lc3::PcmFormat::kS24In3Le, lc3::PcmFormat::kF32 };
struct Aligned { std::vector<uint64_t> m; uint8_t *p; size_t n; Aligned(size_t n) : m(n / 8 + 1), p((uint8_t *)m.data()), n(n) {} };
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0; int streams = std::max(1, (int)(4 * A().scale)), frames = 24;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 777767777 + item); long f0 = nfail(); int nch = r.n(5) == 0 ? 1 + r.n(8) : 1 + r.n(3), ns = c.nsp(); size_t before = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; (void)before;
    context("%s channels %d item %ld", name(c).c_str(), nch, item); int pcm = c.pcm_hz == c.sr_hz && r.n(2) ? 0 : c.pcm_hz;
    // two instances of each class, the second one driven in between by something else
    lc3::Encoder e(c.dt_us, c.sr_hz, pcm, nch, c.hr), e2(c.dt_us, c.sr_hz, pcm, nch, c.hr); lc3::Decoder d(c.dt_us, c.sr_hz, pcm, nch, c.hr), d2(c.dt_us, c.sr_hz, pcm, nch, c.hr);
    // sizing
    if (e.GetFrameSamples() != lc3_hr_frame_samples(c.hr, c.dt_us, c.pcm_hz) || d.GetFrameSamples() != ns) fail("GetFrameSamples() %d, %d, for %d", e.GetFrameSamples(), d.GetFrameSamples(), ns);
    if (e.GetDelaySamples() != lc3_hr_delay_samples(c.hr, c.dt_us, c.pcm_hz) || d.GetDelaySamples() != lc3_hr_delay_samples(c.hr, c.dt_us, c.pcm_hz)) fail("GetDelaySamples() %d, %d, for %d", e.GetDelaySamples(), d.GetDelaySamples(), lc3_hr_delay_samples(c.hr, c.dt_us, c.pcm_hz));
    for (int k = 0; k < 12; k++) { int br = k == 0 ? 0 : k == 1 ? INT32_MAX : k == 2 ? -5 : r.n(k < 8 ? 800000 : 4000000), nb = k == 0 ? 0 : k == 1 ? -3 : r.n(3000);
      int w = lc3_hr_frame_block_bytes(c.hr, c.dt_us, c.sr_hz, nch, br), v = lc3_hr_resolve_bitrate(c.hr, c.dt_us, c.sr_hz, nb); count("size_calls", 4);
      if (e.GetFrameBytes(br) != w || d.GetFrameBytes(br) != w) fail("GetFrameBytes(%d) %d, %d, for %d", br, e.GetFrameBytes(br), d.GetFrameBytes(br), w);
      if (e.ResolveBitrate(nb) != v || d.ResolveBitrate(nb) != v) fail("ResolveBitrate(%d) %d, %d, for %d", nb, e.ResolveBitrate(nb), d.ResolveBitrate(nb), v); }
    std::vector<std::unique_ptr<EncI>> ce; std::vector<std::unique_ptr<DecI>> cd; std::vector<std::unique_ptr<Sig>> g;
    auto restart = [&](bool en, bool de) { if (en) { ce.clear(); for (int k = 0; k < nch; k++) ce.emplace_back(new EncI(c)); } if (de) { cd.clear(); for (int k = 0; k < nch; k++) cd.emplace_back(new DecI(c)); } };
    restart(true, true); for (int k = 0; k < nch; k++) g.emplace_back(new Sig(r.u64(), c.pcm_hz));
    int lo = c.min_bytes(), hi = c.max_bytes(), bs = nch * pick_bytes(r, c); Rng junk(r.u64()); std::vector<uint8_t> prev;
    for (int n = 0; n < frames && nfail() == f0; n++) {
      if (r.n(9) == 0) { bool en = r.n(2), de = r.n(2); if (en) e.Reset(); if (de) d.Reset(); restart(en, de); count("resets", en + de); }
      if (r.n(24) == 0) { e.DisableLTPF(); for (auto &x : ce) lc3_encoder_disable_ltpf(x->e); count("ltpf_disabled"); }
      if (r.n(3) == 0) { int k = r.n(12); bs = k == 0 ? nch * lo : k == 1 ? nch * hi : k == 2 ? nch * lo + r.n(nch) : k == 3 ? nch * lo - 1 : k == 4 ? nch * hi + 1 : k == 5 ? r.n(12 * nch) : nch * lo + r.n(nch * (hi - lo) + 1); }
      int f = r.n(4), w = fmt_bytes(f), api = r.n(2); Aligned x((size_t)ns * nch * w); std::vector<uint8_t> xv(x.n);
      std::vector<Pcm> p(nch); for (int k = 0; k < nch; k++) { p[k].make(f, ns, [&]() { return g[k]->next(); }); for (int i = 0; i < ns; i++) memcpy(x.p + ((size_t)i * nch + k) * w, &p[k].b[(size_t)i * w], w); }
      context("%s channels %d frame %d format %s block %d %s item %ld", name(c).c_str(), nch, n, fmt_name(f), bs, api ? "typed" : "generic", item);
      // the exact block, on the heap
      std::unique_ptr<uint8_t[]> o(new uint8_t[std::max(bs, 1)]); memset(o.get(), 0x5a, std::max(bs, 1)); std::vector<uint8_t> want(std::max(bs, 0), 0x5a);
      int re = 0, at = 0; bool bad = false; for (int k = 0; k < nch; k++) { int nb = bs / nch + (k < bs % nch); int v = lc3_encode(ce[k]->e, (lc3_pcm_format)f, p[k].b.data(), 1, nb, want.data() + at); re |= v; bad |= v != 0; at += nb; }
      int got = api && f == 0 ? e.Encode((const int16_t *)x.p, bs, o.get()) : api && f == 1 ? e.Encode((const int32_t *)x.p, bs, o.get()) : api && f == 3 ? e.Encode((const float *)x.p, bs, o.get()) : e.Encode(F[f], x.p, bs, o.get());
      count("encoded_blocks"); if (bad) count("refused_blocks");
      if (got != re) fail("Encode() returns %d, the C interface %d", got, re); if (bs > 0 && memcmp(o.get(), want.data(), bs)) fail("Encode() gives another block than the C interface");
      distinct(hash(want.data(), want.size()));
      // another instance in between
      if (r.n(3) == 0) { std::vector<uint8_t> jo(nch * lo); std::vector<float> jx((size_t)ns * nch); for (auto &v : jx) v = junk.u() - .5; if (r.n(2)) e2.DisableLTPF(); e2.Encode(jx.data(), (int)jo.size(), jo.data()); d2.Decode(jo.data(), (int)jo.size(), jx.data()); if (r.n(4) == 0) { e2.Reset(); d2.Reset(); } }
      // decoding of the block, possibly damaged or lost
      std::vector<uint8_t> in(want); int kind = r.n(6); int dbs = bs; if (kind == 0) for (auto &b : in) b = r.u64() >> 9; else if (kind == 1 && !in.empty()) in[in.size() - 1 - r.n(std::min((int)in.size(), 12))] ^= 1 << r.n(8); bool lost = kind == 2; if (lost && r.n(2)) dbs = 0;
      f = r.n(4); w = fmt_bytes(f); Aligned y((size_t)ns * nch * w); memset(y.p, 0x33, y.n); std::unique_ptr<uint8_t[]> ib(new uint8_t[std::max(bs, 1)]); if (bs > 0) memcpy(ib.get(), in.data(), bs);
      context("%s channels %d frame %d decoding, format %s block %d %s item %ld", name(c).c_str(), nch, n, fmt_name(f), dbs, lost ? "lost" : "", item);
      std::vector<std::vector<uint8_t>> q(nch); int rd = 0; at = 0; bool refused = false; for (int k = 0; k < nch; k++) { q[k].assign((size_t)ns * w, 0x33); int nb = dbs / nch + (k < dbs % nch); int v = lc3_decode(cd[k]->d, lost ? nullptr : ib.get() + at, nb, (lc3_pcm_format)f, q[k].data(), 1); rd |= v; refused |= v < 0; at += nb; }
      const uint8_t *ip = lost ? nullptr : ib.get();
      got = api && f == 0 ? d.Decode(ip, dbs, (int16_t *)y.p) : api && f == 1 ? d.Decode(ip, dbs, (int32_t *)y.p) : api && f == 3 ? d.Decode(ip, dbs, (float *)y.p) : d.Decode(ip, dbs, F[f], y.p);
      count("decoded_blocks"); if (rd == 1) count("concealed_blocks"); if (refused) count("refused_blocks");
      if (got != rd) fail("Decode() returns %d, the C interface %d", got, rd); xv.assign(y.p, y.p + (size_t)ns * nch * w);
      for (int k = 0; k < nch; k++) if (take(xv, f, k, nch, ns) != q[k]) { fail("Decode() gives other samples than the C interface on channel %d", k); break; }
      distinct(hash(xv.data(), xv.size())); if (n == 12 && item % 61 == 1) sample(ctx()); }
    count("streams"); }
  // refused parameters : nothing is coded nor touched, whatever the calls
  if (A().shard == 0 || A().only >= 0) { static const int DT[] = { 10000, 7500, 5000, 2500, 0, -1, 1000, 2501, 20000 }, SR[] = { 8000, 16000, 24000, 32000, 48000, 96000, 44100, 0, -8000, 12000 };
    for (int hr = 0; hr < 2; hr++) for (int dt : DT) for (int sr : SR) for (int pc : SR) for (int nch : { 1, 2 }) { int pr = pc > 0 ? pc : sr; size_t sz = lc3_hr_encoder_size(hr, dt, pr); Mem m(sz + 8); bool ok = sz && lc3_hr_setup_encoder(hr, dt, sr, pr, m.p);
        context("hrmode %d dt_us %d sr_hz %d sr_pcm_hz %d channels %d", hr, dt, sr, pc, nch); lc3::Encoder e(dt, sr, pc, nch, hr); lc3::Decoder d(dt, sr, pc, nch, hr);
        static std::vector<float> x(4000), y(4000); uint8_t b[1400] = { 0 }; int nb = hr ? 200 : 40; b[0] = 77; y[0] = 77;
        e.Reset(); d.Reset(); e.DisableLTPF(); int re = e.Encode(x.data(), nb * nch, b), rd = d.Decode(nullptr, 0, y.data()); count(ok ? "accepted_sets" : "refused_sets");
        if (re != (ok ? 0 : -1) || rd != (ok ? 1 : -1)) fail("Encode() returns %d, Decode() %d on %s parameters", re, rd, ok ? "supported" : "unsupported");
        if (!ok && (b[0] != 77 || y[0] != 77)) fail("output written on unsupported parameters"); 
        if (e.GetFrameSamples() != lc3_hr_frame_samples(hr, dt, pr)) fail("GetFrameSamples()"); if (e.GetFrameBytes(64000) != lc3_hr_frame_block_bytes(hr, dt, sr, nch, 64000)) fail("GetFrameBytes()"); } }
  // a value which is none of the formats
  if (A().shard == 0 || A().only >= 0) for (int v : { -1, 4, 5, 9, 255, INT32_MAX, INT32_MIN }) for (int nch : { 1, 2, 3 }) { context("format %d channels %d", v, nch); lc3::Encoder e(10000, 16000, 0, nch); lc3::Decoder d(10000, 16000, 0, nch); std::vector<float> x(160 * nch, .25f); std::vector<uint8_t> b(40 * nch, 77);
    volatile int vv = v; lc3::PcmFormat f = (lc3::PcmFormat)(int)vv; count("bad_formats"); int re = e.Encode(f, x.data(), 40 * nch, b.data()), rd = d.Decode(b.data(), 40 * nch, f, x.data()), rl = d.Decode(nullptr, 0, f, x.data());
    if (re != -1 || rd != -1 || rl != -1) fail("Encode() returns %d, Decode() %d, %d on a bad format", re, rd, rl); for (auto q : b) if (q != 77) { fail("block written on a bad format"); break; } for (auto q : x) if (q != .25f) { fail("samples written on a bad format"); break; } }
  // the parameters by default : one channel, at the rate of the codec, standard mode
  if (A().shard == 0 || A().only >= 0) for (int dt : { 2500, 5000, 7500, 10000 }) for (int sr : { 8000, 16000, 24000, 32000, 48000 }) for (int k = 0; k < 3; k++) { context("dt_us %d sr_hz %d, %d parameters by default", dt, sr, 3 - k);
    std::unique_ptr<lc3::Encoder> e(k == 0 ? new lc3::Encoder(dt, sr) : k == 1 ? new lc3::Encoder(dt, sr, 0) : new lc3::Encoder(dt, sr, sr, 1)); std::unique_ptr<lc3::Decoder> d(k == 0 ? new lc3::Decoder(dt, sr) : k == 1 ? new lc3::Decoder(dt, sr, 0) : new lc3::Decoder(dt, sr, sr, 1)); count("default_parameters");
    Cfg c; c.hr = false; c.dt_us = dt; c.sr_hz = c.pcm_hz = sr; EncI ce(c); DecI cd(c); int ns = c.nsp(); Sig g(dt + sr + k, sr);
    if (e->GetFrameSamples() != ns || d->GetFrameSamples() != ns || e->GetDelaySamples() != lc3_delay_samples(dt, sr) || d->GetDelaySamples() != lc3_delay_samples(dt, sr)) fail("number of samples");
    if (e->GetFrameBytes(64000) != lc3_frame_bytes(dt, 64000) || d->GetFrameBytes(64000) != lc3_frame_bytes(dt, 64000) || e->ResolveBitrate(60) != lc3_resolve_bitrate(dt, 60)) fail("size of the frames");
    for (int n = 0; n < 3; n++) { std::vector<float> x(ns), y(ns + 1, 9.f), z(ns); for (auto &v : x) v = g.next(); uint8_t b[41], w[41]; memset(b, 0x5a, 41); memset(w, 0x5a, 41); lc3_encode(ce.e, LC3_PCM_FORMAT_FLOAT, x.data(), 1, 40, w); lc3_decode(cd.d, w, 40, LC3_PCM_FORMAT_FLOAT, z.data(), 1);
      if (e->Encode(x.data(), 40, b) || memcmp(b, w, 41)) fail("Encode() gives another block than the C interface"); if (d->Decode(w, 40, y.data()) || memcmp(y.data(), z.data(), ns * 4) || y[ns] != 9.f) fail("Decode() gives other samples than the C interface"); } }
  // memory is released
  if (__sanitizer_get_current_allocated_bytes) { auto once = [&]() { lc3::Encoder e(10000, 48000, 0, 3); lc3::Decoder d(7500, 16000, 48000, 2); lc3::Encoder bad(10000, 44100, 0, 2); lc3::Decoder badd(123, 8000, 0, 2); e.Reset(); d.Reset(); };
    once(); size_t a = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 64; i++) once(); size_t b = __sanitizer_get_current_allocated_bytes(); count("leak_rounds", 64); context("instances created and destroyed"); if (b > a) fail("%zu bytes kept after 64 rounds", b - a); }
  return finish();
}
