// P14 : every entry point accepts exactly the supported parameters, and refuses the others without touching memory
#include "common.h"
#include <sys/mman.h>
using namespace vf;
static bool ok_dt(bool hr, int us) { return us == 10000 || (us == 7500 && !hr) || (LC3_PLUS && (us == 2500 || us == 5000)); }
static bool ok_sr(bool hr, int hz) { return hr ? hz == 48000 || hz == 96000 : hz == 8000 || hz == 16000 || hz == 24000 || hz == 32000 || hz == 48000; }
static bool ok(bool hr, int us, int hz) { if (hr && !LC3_PLUS_HR) return false; return ok_dt(hr, us) && ok_sr(hr, hz); }
static void *no; // any access traps
extern "C" int vf_readable(const void *p) { return p != no; } // (for the copies of wasm/shim.c)
int main(int ac, char **av) {
  init(ac, av); no = mmap(0, 1 << 22, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); Rng r(A().seed * 7919 + A().shard);
  std::vector<int> dts = { 2500, 5000, 7500, 10000 }, srs = { 8000, 16000, 24000, 32000, 48000, 96000 }; int nd = 4, nr = 6;
  for (int v : { 0, -1, 1, 2, 3, 4, 5, 7, 10, 25, 75, 100, 1250, 2499, 2501, 3750, 4999, 5001, 6250, 7499, 7501, 9999, 10001, 12500, 15000, 20000, 25000, -2500, -10000, 65536 + 10000, 1 << 20, INT32_MAX, INT32_MIN }) dts.push_back(v);
  for (int v : { 0, -1, 1, 7, 8, 16, 24, 32, 48, 96, 4000, 7999, 8001, 11025, 12000, 12800, 15999, 16001, 20000, 22050, 23999, 24001, 31999, 32001, 40000, 44100, 47999, 48001, 56000, 64000, 88200, 95999, 96001, 128000, 176400, 192000, -8000, -48000, 65536 + 8000, 65536 + 48000, INT32_MAX, INT32_MIN }) srs.push_back(v);
  for (int k = 0; k < 40 * A().scale + 4; k++) { dts.push_back(r.n(4) ? r.n(13000) : (int)r.u64()); srs.push_back(r.n(4) ? r.n(100000) : (int)r.u64()); }
  long item = 0; auto lim = [&](bool hr, int us, int hz, int k) { Cfg c{ hr, us, hz, hz }; if (k) return c.max_bytes(); // the documented minimum, or half of it in high-resolution mode (as implemented, DESIGN.md)
    int m = lc3_hr_frame_bytes(hr, us, hz, 0); return hr && m == c.min_bytes() / 2 ? m : c.min_bytes(); };
  // -- stateless interfaces
#define EXP(call, good, what) do { auto v_ = (call); count("calls"); if (!(good)) fail("%s returns %ld, %s", #call, (long)v_, what); } while (0)
  for (int hr = 0; hr < 2; hr++) for (int dt : dts) for (int sr : srs) { item++; if (!mine(item) || toomany()) continue;
    bool o = ok(hr, dt, sr); context("hrmode %d dt_us %d sr_hz %d item %ld", hr, dt, sr, item); count(o ? "supported_sets" : "unsupported_sets"); distinct(hash(ctx(), strlen(ctx())));
    if (o || item % 5000 == 1) sample(ctx());
    EXP(lc3_hr_frame_samples(hr, dt, sr), o ? v_ == (int64_t)dt * sr / 1000000 : v_ == -1, "frame samples");
    Cfg c{ (bool)hr, dt, sr, sr };
    EXP(lc3_hr_delay_samples(hr, dt, sr), o ? v_ == (dt == 2500 ? sr / 400 : dt == 7500 ? sr / 250 : sr / 400) : v_ == -1, "delay samples");
    int bad[] = { -1, INT32_MIN, -1000 };
    for (int b : { 0, 16000, 64001, 96000, 320000, 500000, 1000000, INT32_MAX }) {
      EXP(lc3_hr_frame_bytes(hr, dt, sr, b), o ? v_ >= lim(hr, dt, sr, 0) && v_ <= lim(hr, dt, sr, 1) : v_ == -1, "frame bytes");
      for (int nch : { 1, 2, 3, 8 }) EXP(lc3_hr_frame_block_bytes(hr, dt, sr, nch, b), o ? v_ >= nch * lim(hr, dt, sr, 0) && v_ <= nch * lim(hr, dt, sr, 1) : v_ == -1, "block bytes");
      for (int nch : { 0, -1, 9, 10, 255, 256 + 1, INT32_MAX, INT32_MIN }) EXP(lc3_hr_frame_block_bytes(hr, dt, sr, nch, b), v_ == -1, "number of channels out of range");
      EXP(lc3_hr_resolve_bitrate(hr, dt, sr, b), o ? v_ >= 0 : v_ == -1, "bitrate"); }
    for (int b : bad) { EXP(lc3_hr_frame_bytes(hr, dt, sr, b), v_ == -1, "negative bitrate"); EXP(lc3_hr_frame_block_bytes(hr, dt, sr, 2, b), v_ == -1, "negative bitrate"); EXP(lc3_hr_resolve_bitrate(hr, dt, sr, b), v_ == -1, "negative size"); }
    EXP(lc3_hr_encoder_size(hr, dt, sr), o ? v_ > 1000 && v_ < 100000 : v_ == 0, "encoder size");
    EXP(lc3_hr_decoder_size(hr, dt, sr), o ? v_ > 200 && v_ < 100000 : v_ == 0, "decoder size");
    if (!hr) { bool od = ok(false, dt, 8000);
      EXP(lc3_frame_samples(dt, sr), v_ == lc3_hr_frame_samples(false, dt, sr), "differs from lc3_hr_frame_samples()"); EXP(lc3_delay_samples(dt, sr), v_ == lc3_hr_delay_samples(false, dt, sr), "differs from lc3_hr_delay_samples()");
      EXP(lc3_encoder_size(dt, sr), v_ == lc3_hr_encoder_size(false, dt, sr), "differs from lc3_hr_encoder_size()"); EXP(lc3_decoder_size(dt, sr), v_ == lc3_hr_decoder_size(false, dt, sr), "differs from lc3_hr_decoder_size()");
      for (int b : { 0, 16000, 64001, 320000, INT32_MAX }) { EXP(lc3_frame_bytes(dt, b), od ? v_ >= 20 && v_ <= 400 : v_ == -1, "frame bytes"); EXP(lc3_frame_block_bytes(dt, 2, b), od ? v_ >= 40 && v_ <= 800 : v_ == -1, "block bytes"); EXP(lc3_resolve_bitrate(dt, b), od ? v_ >= 0 : v_ == -1, "bitrate"); } }
    // the macros are the documented list
    if (LC3_PLUS && !hr && (bool)LC3_CHECK_DT_US(dt) != ok_dt(false, dt)) fail("LC3_CHECK_DT_US(%d)", dt);
    if (LC3_PLUS_HR && (bool)LC3_HR_CHECK_SR_HZ(hr, sr) != ok_sr(hr, sr)) fail("LC3_HR_CHECK_SR_HZ(%d, %d)", hr, sr);
    // -- setup : trapping memory for the refused ones
    for (int pcm : srs) { if (o && pcm != sr && &pcm && r.n(3) && !ok(hr, dt, pcm) && pcm > 0) continue; if (!o && r.n(8)) continue;
      bool g = o && (pcm <= 0 || (ok(hr, dt, pcm) && pcm >= sr)); context("hrmode %d dt_us %d sr_hz %d sr_pcm_hz %d item %ld", hr, dt, sr, pcm, item); count("setup_calls");
      if (!g) { EXP((uintptr_t)lc3_hr_setup_encoder(hr, dt, sr, pcm, no), !v_, "encoder setup shall be refused"); EXP((uintptr_t)lc3_hr_setup_decoder(hr, dt, sr, pcm, no), !v_, "decoder setup shall be refused");
        if (!hr) { EXP((uintptr_t)lc3_setup_encoder(dt, sr, pcm, no), !v_, "encoder setup shall be refused"); EXP((uintptr_t)lc3_setup_decoder(dt, sr, pcm, no), !v_, "decoder setup shall be refused"); } }
      EXP((uintptr_t)lc3_hr_setup_encoder(hr, dt, sr, pcm, nullptr), !v_, "no memory"); EXP((uintptr_t)lc3_hr_setup_decoder(hr, dt, sr, pcm, nullptr), !v_, "no memory");
      if (g) { int p = pcm <= 0 ? sr : pcm; Mem me(lc3_hr_encoder_size(hr, dt, p), 0xa5), md(lc3_hr_decoder_size(hr, dt, p), 0xa5); count("accepted_setups");
        auto *e = hr || r.n(2) ? lc3_hr_setup_encoder(hr, dt, sr, pcm, me.p) : lc3_setup_encoder(dt, sr, pcm, me.p); auto *d = hr || r.n(2) ? lc3_hr_setup_decoder(hr, dt, sr, pcm, md.p) : lc3_setup_decoder(dt, sr, pcm, md.p);
        if ((void *)e != me.p || (void *)d != md.p) { fail("setup refused"); continue; }
        // -- frame sizes
        int mn = lim(hr, dt, sr, 0), mx = lim(hr, dt, sr, 1), ns = p / 100 * (dt / 100) / 100; std::vector<float> x(ns), y(ns); for (auto &v : x) v = r.u() - .5; std::vector<uint8_t> o(mx);
        std::vector<int> sizes = { -1, INT32_MIN, INT32_MAX, 0, 1, 10, 18, 19, mx + 1, mx + 2, mx + 100, mx + 256, 2 * mx, 65536 + mn, -mn, mn - 1, 20 - 65536 * 16, mn, mn + 1, mx - 1, mx }; for (int k = 0; k < 4; k++) sizes.push_back(r.n(mx + 200) - 50);
        for (int nb : sizes) { int f = r.n(4); context("hrmode %d dt_us %d sr_hz %d sr_pcm_hz %d nbytes %d item %ld", hr, dt, sr, pcm, nb, item); count("size_calls");
          if (nb >= 20 && nb < mn) { EXP(lc3_encode(e, (lc3_pcm_format)f, no, 1, nb, no), v_ == -1, "frame size out of range"); continue; }
          if (nb < 20 || nb > mx) { EXP(lc3_encode(e, (lc3_pcm_format)f, no, 1, nb, no), v_ == -1, "frame size out of range"); EXP(lc3_decode(d, no, nb, (lc3_pcm_format)f, no, 1), v_ == -1, "frame size out of range"); }
          else { EXP(lc3_encode(e, LC3_PCM_FORMAT_FLOAT, x.data(), 1, nb, o.data()), v_ == 0, "legal frame size"); EXP(lc3_decode(d, o.data(), nb, LC3_PCM_FORMAT_FLOAT, y.data(), 1), v_ == 0, "legal frame size"); } }
        EXP(lc3_encode(nullptr, LC3_PCM_FORMAT_S16, no, 1, mn, no), v_ == -1, "no encoder"); EXP(lc3_decode(nullptr, no, mn, LC3_PCM_FORMAT_S16, no, 1), v_ == -1, "no decoder"); EXP(lc3_decode(nullptr, nullptr, 0, LC3_PCM_FORMAT_S16, no, 1), v_ == -1, "no decoder");
        EXP(lc3_decode(d, nullptr, r.n(3) ? mn : 0, LC3_PCM_FORMAT_FLOAT, y.data(), 1), v_ == 1, "lost frame"); } }
  }
  return finish();
}
