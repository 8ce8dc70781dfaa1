// P16 : the codec works in the announced memory only, without allocation nor system call
#include "common.h"
#include <sys/mman.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <unistd.h>
#include <dlfcn.h>
#include <stddef.h>
using namespace vf;

// ---- Allocations are observed by interposition
static volatile int inside; static volatile long nalloc;
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
#define OBS if (inside) nalloc++
void *malloc(size_t n) { OBS; return __libc_malloc(n); } void free(void *p) { OBS; __libc_free(p); } void *calloc(size_t a, size_t b) { OBS; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { OBS; return __libc_realloc(p, n); } void *memalign(size_t a, size_t n) { OBS; return __libc_memalign(a, n); } void *aligned_alloc(size_t a, size_t n) { OBS; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { OBS; *p = __libc_memalign(a, n); return *p ? 0 : 12; } }

// Memory of exactly n bytes, ended (or started) by a page without access
struct Fence { uint8_t *base; size_t len; void *p; Fence(size_t n, int align, bool end) { size_t pg = 4096; len = (n + pg - 1) / pg * pg + 2 * pg + pg; base = (uint8_t *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base, pg, PROT_NONE); mprotect(base + len - pg, pg, PROT_NONE); p = end ? (void *)((uintptr_t)(base + len - pg - n) / align * align) : (void *)(base + pg); }
  ~Fence() { munmap(base, len); } };

template <class T> static bool fits_e(const char *n, bool hr, int dt, int hz) { unsigned s = lc3_hr_encoder_size(hr, dt, hz); count("static_types"); if (s > sizeof(T)) { fail("%s of %zu bytes, lc3_hr_encoder_size(%d, %d, %d) is %u", n, sizeof(T), hr, dt, hz, s); return false; } return true; }
template <class T> static bool fits_d(const char *n, bool hr, int dt, int hz) { unsigned s = lc3_hr_decoder_size(hr, dt, hz); count("static_types"); if (s > sizeof(T)) { fail("%s of %zu bytes, lc3_hr_decoder_size(%d, %d, %d) is %u", n, sizeof(T), hr, dt, hz, s); return false; } return true; }
template <int DT, int HZ> static void mem_t() { for (int hr = 0; hr < 2; hr++) if (lc3_hr_encoder_size(hr, DT, HZ)) { typedef LC3_ENCODER_MEM_T(DT, HZ) te; typedef LC3_DECODER_MEM_T(DT, HZ) td; fits_e<te>("LC3_ENCODER_MEM_T", hr, DT, HZ); fits_d<td>("LC3_DECODER_MEM_T", hr, DT, HZ); } }
template <int HZ> static void mem_hz() { mem_t<2500, HZ>(); mem_t<5000, HZ>(); mem_t<7500, HZ>(); mem_t<10000, HZ>(); }

struct Work { Cfg c; void *me, *md; std::vector<Pcm> p; std::vector<std::vector<uint8_t>> o; std::vector<std::vector<uint8_t>> y, hx; std::vector<int> nb; };
struct Shared { long frames, sysno, done; uint64_t h; };
// the job : no allocation in there ; from `nl`, the frames come again, a long burst being lost
static uint64_t job(Work &w, int from, int to, lc3_encoder_t e, lc3_decoder_t d) { uint64_t h = 7; int nl = (int)w.nb.size();
  for (int m = from; m < to; m++) { int n = m % nl; inside = 1;
    lc3_encode(e, (lc3_pcm_format)w.p[n].f, w.p[n].b.data(), 1, w.nb[n], w.o[n].data());
    const uint8_t *in = m >= nl && m < nl + 1000 ? nullptr : n % 3 == 1 && !w.hx[n].empty() ? w.hx[n].data() : n % 7 == 6 ? nullptr : w.o[n].data(); int nb = in == w.hx[n].data() ? (int)w.hx[n].size() : w.nb[n];
    lc3_decode(d, in, nb, (lc3_pcm_format)w.p[n].f, w.y[n].data(), 1); inside = 0;
    h = hash(w.o[n].data(), w.nb[n], h); h = hash(w.y[n].data(), w.y[n].size(), h); }
  return h; }
static Shared *sh;
static void onsys(int, siginfo_t *i, void *) { sh->sysno = i->si_syscall; sh->done = -1; _exit(3); }

int main(int ac, char **av) {
  init(ac, av); long item = 0; auto cfgs = vf::cfgs(true); sh = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (A().shard == 0) { context("static types"); mem_hz<8000>(); mem_hz<16000>(); mem_hz<24000>(); mem_hz<32000>(); mem_hz<48000>(); mem_hz<96000>();
    for (int hr = 0; hr < 2; hr++) for (int dt = 2500; dt <= 10000; dt += 2500) for (int hz : { 8000, 16000, 24000, 32000, 48000 }) if (lc3_hr_encoder_size(hr, dt, hz)) {
      if (hz <= 16000) fits_e<lc3_encoder_mem_16k_t>("lc3_encoder_mem_16k_t", hr, dt, hz), fits_d<lc3_decoder_mem_16k_t>("lc3_decoder_mem_16k_t", hr, dt, hz);
      fits_e<lc3_encoder_mem_48k_t>("lc3_encoder_mem_48k_t", hr, dt, hz), fits_d<lc3_decoder_mem_48k_t>("lc3_decoder_mem_48k_t", hr, dt, hz); } }
  int streams = std::max(1, (int)(6 * A().scale)), NF = 48;
  for (int s = 0; s < streams; s++) for (size_t ci = 0; ci < cfgs.size(); ci++, item++) {
    if (!mine(item) || timeup() || toomany()) continue;
    const Cfg &c = cfgs[ci]; Rng r(A().seed * 6700417 + item); context("%s stream %d item %ld", name(c).c_str(), s, item); long f0 = nfail();
    Work w; w.c = c; Hostile hz(r.u64(), c); Sig g(r.u64(), c.pcm_hz, (int)((s * 5 + ci) % Sig::NMODES)); int fm = r.n(4);
    for (int n = 0; n < NF; n++) { if (r.n(5) == 0) fm = r.n(4); w.p.emplace_back(); w.p.back().make(fm, c.nsp(), [&]() { return g.next(); }); w.nb.push_back(pick_bytes(r, c)); w.o.emplace_back(w.nb[n]); w.y.emplace_back((size_t)c.nsp() * fmt_bytes(fm)); w.hx.emplace_back(); hz.next(w.hx[n]); }
    // -- exactly the announced memory, between pages without access, at any pointer aligned address
    int al = s % 2 ? 8 : 4; bool end = r.n(3) != 0; unsigned ne = lc3_hr_encoder_size(c.hr, c.dt_us, c.pcm_hz), nd = lc3_hr_decoder_size(c.hr, c.dt_us, c.pcm_hz); al = 8;
    Fence fe(ne, al, end), fd(nd, al, end); uint64_t ref = 0;
    auto setup = [&](void *me, void *md, lc3_encoder_t &e, lc3_decoder_t &d) { inside = 1; e = lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, me); d = lc3_hr_setup_decoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, md); inside = 0; };
    lc3_encoder_t e; lc3_decoder_t d; nalloc = 0; setup(fe.p, fd.p, e, d); ref = job(w, 0, NF, e, d); count("frames", 2 * NF); if (nalloc) fail("%ld allocations while coding", (long)nalloc); distinct(ref);
    int NL = s % 4 == 2 ? NF + 1100 : NF; if (NL > NF) { setup(fe.p, fd.p, e, d); ref = job(w, 0, NL, e, d); count("long_streams"); count("frames", 2 * NL); if (nalloc) fail("%ld allocations while coding a long stream", (long)nalloc); }
    uint64_t refl = ref; if (NL > NF) { setup(fe.p, fd.p, e, d); ref = job(w, 0, NF, e, d); }
    // -- other alignments : same outputs
    { std::vector<uint64_t> me(ne / 8 + 12), md(nd / 8 + 12); int k = r.n(8); setup(me.data() + k, md.data() + r.n(8), e, d); if (job(w, 0, NF, e, d) != ref) fail("the output depends on the address of the context"); count("addresses"); }
    // -- the whole state is in the announced memory : snapshot, go elsewhere, restore
    { int k = 8 + r.n(24); setup(fe.p, fd.p, e, d); uint64_t a = job(w, 0, k, e, d); std::vector<uint8_t> se((uint8_t *)fe.p, (uint8_t *)fe.p + ne), sd((uint8_t *)fd.p, (uint8_t *)fd.p + nd);
      uint64_t b = job(w, k, NF, e, d); job(w, 0, r.n(NF), e, d); { lc3_encoder_t e2; lc3_decoder_t d2; EncI xe(cfgs[r.n(cfgs.size())]); DecI xd(xe.c); (void)e2; (void)d2; std::vector<uint8_t> z(400 * 8), o(700); if (xe.e) lc3_encode(xe.e, LC3_PCM_FORMAT_S16, z.data(), 1, xe.c.min_bytes(), o.data()); }
      memcpy(fe.p, se.data(), ne); memcpy(fd.p, sd.data(), nd); if (job(w, k, NF, e, d) != b) fail("part of the state is not in the announced memory"); count("snapshots"); (void)a; }
    // -- no system call : in a child allowed to exit only
    if (s % 2 == 0) { setup(fe.p, fd.p, e, d); memset(sh, 0, sizeof *sh); fflush(stdout); pid_t pid = fork();
      if (!pid) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsys; sa.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &sa, 0);
        sock_filter f[] = { BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 1, 0), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW) }; sock_fprog pr = { 4, f };
        if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { sh->done = 2; _exit(0); }
        inside = 1; e = lc3_hr_setup_encoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, fe.p); d = lc3_hr_setup_decoder(c.hr, c.dt_us, c.sr_hz, c.pcm_hz, fd.p); sh->h = job(w, 0, NL, e, d); sh->frames = NL; sh->done = 1; _exit(0); }
      int st; waitpid(pid, &st, 0);
      if (sh->done == 2) count("seccomp_unavailable"); else if (sh->done == -1) fail("system call %ld while coding", sh->sysno); else if (sh->done != 1) fail("ended by status %d under the system call filter", st); else { if (sh->h != refl) fail("different output in another process"); count("frames_without_syscall", 2 * NL); } }
    if (item % 67 == 3) sample(ctx()); if (nfail() == f0) count("streams");
  }
  return finish();
}
