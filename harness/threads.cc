// P06 : concurrent instances ; outputs compared to the sequential ones
#include "common.h"
#include <thread>
#include <atomic>
using namespace vf;
struct Task { Cfg c; uint64_t seed; int frames; std::vector<uint64_t> out; };
// One stream through an encoder and a decoder, with re-setup in the middle
static void run(Task &t, Rng *jit) {
  const Cfg &c = t.c; t.out.clear(); Rng r(t.seed); Mem me(lc3_hr_encoder_size(c.hr, c.dt_us, c.pcm_hz)), md(lc3_hr_decoder_size(c.hr, c.dt_us, c.pcm_hz));
  auto e = lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, me.p); auto d = lc3_hr_setup_decoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, md.p);
  Sig g(t.seed, c.pcm_hz); int off = r.n(t.frames * 2), rs = r.n(t.frames * 2), nb = pick_bytes(r, c);
  for (int n = 0; n < t.frames; n++) {
    if (n == off) lc3_encoder_disable_ltpf(e);
    if (n == rs) { e = lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, me.p); d = lc3_hr_setup_decoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, md.p); }
    if (r.n(5) == 0) nb = pick_bytes(r, c); int fm = r.n(4), fo = r.n(4); Pcm p; p.make(fm, c.nsp(), [&]() { return g.next(); }); std::vector<uint8_t> o(nb), y((size_t)c.nsp() * fmt_bytes(fo));
    uint64_t h = lc3_encode(e, (lc3_pcm_format)fm, p.b.data(), 1, nb, o.data()); h = hash(o.data(), nb, h + 77);
    if (jit && jit->n(3) == 0) std::this_thread::yield();
    int k = r.n(8); if (k == 1) o[nb - 1 - r.n(std::min(nb, 20))] ^= 1 << r.n(8);
    h = h * 31 + lc3_decode(d, k == 0 ? nullptr : o.data(), k == 0 ? 0 : nb, (lc3_pcm_format)fo, y.data(), 1); t.out.push_back(hash(y.data(), y.size(), h)); }
}
int main(int ac, char **av) {
  init(ac, av); auto cfgs = vf::cfgs(true); long item = 0; bool tsan = false; tsan = A().has("tsan");
  int rounds = std::max(1, (int)((tsan ? 14 : 40) * A().scale)), NT = tsan ? 4 : 8;
  for (int s = 0; s < rounds; s++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    Rng r(A().seed * 179424673 + item); std::vector<Task> t; int per = 3;
    for (int k = 0; k < NT * per; k++) t.push_back(Task{ s % 3 == 0 && k ? t[0].c : cfgs[r.n((int)cfgs.size())], r.u64(), 10 + r.n(14), {} });
    context("round %d, %d streams on %d threads, first %s item %ld", s, NT * per, NT, name(t[0].c).c_str(), item);
    std::vector<Task> ref = t; std::atomic<int> go{0}; std::vector<std::thread> th;
    auto seq = [&]() { for (auto &x : ref) run(x, nullptr); };
    if (s % 2) seq();       // half of the rounds run concurrently first (lazy initialisations)
    for (int k = 0; k < NT; k++) th.emplace_back([&, k]() { Rng j(k + s * 100); go++; while (go < NT) std::this_thread::yield(); for (int i = 0; i < per; i++) run(t[k * per + i], &j); });
    for (auto &x : th) x.join();
    if (!(s % 2)) seq();
    for (size_t k = 0; k < t.size(); k++) { for (size_t n = 0; n < t[k].out.size(); n++) { count("frames"); distinct(t[k].out[n]);
        if (t[k].out[n] != ref[k].out[n]) { fail("stream %zu (%s) frame %zu : result differs from the sequential run", k, name(t[k].c).c_str(), n); break; } } }
    count("rounds"); if (s % 5 == 1) sample(ctx());
  }
  // sharing between threads of one instance, one at a time
  return finish();
}
