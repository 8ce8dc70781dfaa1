// The interface of the library, served by the WebAssembly module in a JavaScript engine (server.js)
#include <lc3.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include <signal.h>
#include <sys/prctl.h>
static int in = -1, out = -1;
static void die(const char *m) { printf("FAIL WebAssembly: %s\n", m); fflush(stdout); fprintf(stderr, "SUMMARY: %s\n", m); _exit(1); }
static void start(void) {
  int a[2], b[2]; signal(SIGPIPE, SIG_IGN); if (pipe(a) || pipe(b)) die("pipe");
  int p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); close(a[1]); close(b[0]); execlp("node", "node", WASM_SERVER, WASM_FILE, (char *)0); _exit(127); }
  close(a[0]); close(b[1]); out = a[1]; in = b[0]; }
static void wr(const void *p, size_t n) { while (n) { ssize_t k = write(out, p, n); if (k <= 0) die("the engine ended"); p = (const char *)p + k; n -= k; } }
static void rd(void *p, size_t n) { while (n) { ssize_t k = read(in, p, n); if (k <= 0) die("the engine ended (trap)"); p = (char *)p + k; n -= k; } }
static int call(const int a[8], const void *pay, int n, unsigned char **rep, int *nrep) {
  static unsigned char *b; static int cap; static unsigned char q[1 << 20]; if (in < 0) start(); memcpy(q, a, 32); memcpy(q + 32, &n, 4); if (n) memcpy(q + 36, pay, n); wr(q, 36 + n);
  int h[2]; rd(h, 8); if (h[1] + 1 > cap) b = realloc(b, cap = 2 * h[1] + 100); rd(b, h[1]); b[h[1]] = 0; if (h[0] == -77777 && h[1]) die((char *)b); if (rep) *rep = b; if (nrep) *nrep = h[1]; return h[0]; }
static int pure(const char *f, int n, int a, int b, int c, int d, int e) { int v[8] = { 0, n, a, b, c, d, e, 0 }; return call(v, f, strlen(f), 0, 0); }
#define P(f, n, ...) pure(#f, n, __VA_ARGS__)
int lc3_hr_frame_samples(bool h, int d, int s) { return P(lc3_hr_frame_samples, 3, h, d, s, 0, 0); }
int lc3_frame_samples(int d, int s) { return P(lc3_frame_samples, 2, d, s, 0, 0, 0); }
int lc3_hr_frame_bytes(bool h, int d, int s, int b) { return P(lc3_hr_frame_bytes, 4, h, d, s, b, 0); }
int lc3_frame_bytes(int d, int b) { return P(lc3_frame_bytes, 2, d, b, 0, 0, 0); }
int lc3_hr_frame_block_bytes(bool h, int d, int s, int n, int b) { return P(lc3_hr_frame_block_bytes, 5, h, d, s, n, b); }
int lc3_frame_block_bytes(int d, int n, int b) { return P(lc3_frame_block_bytes, 3, d, n, b, 0, 0); }
int lc3_hr_resolve_bitrate(bool h, int d, int s, int n) { return P(lc3_hr_resolve_bitrate, 4, h, d, s, n, 0); }
int lc3_resolve_bitrate(int d, int n) { return P(lc3_resolve_bitrate, 2, d, n, 0, 0, 0); }
int lc3_hr_delay_samples(bool h, int d, int s) { return P(lc3_hr_delay_samples, 3, h, d, s, 0, 0); }
int lc3_delay_samples(int d, int s) { return P(lc3_delay_samples, 2, d, s, 0, 0, 0); }
unsigned lc3_hr_encoder_size(bool h, int d, int s) { return P(lc3_hr_encoder_size, 3, h, d, s, 0, 0); }
unsigned lc3_encoder_size(int d, int s) { return P(lc3_encoder_size, 2, d, s, 0, 0, 0); }
unsigned lc3_hr_decoder_size(bool h, int d, int s) { return P(lc3_hr_decoder_size, 3, h, d, s, 0, 0); }
unsigned lc3_decoder_size(int d, int s) { return P(lc3_decoder_size, 2, d, s, 0, 0, 0); }
// contexts : host address -> address in the module
struct H { void *m; int p, ns, hi, op; }; static struct H *t; static int nt, ct;
static struct H *get(void *m) { for (int i = nt - 1; i >= 0; i--) if (t[i].m == m) return &t[i]; return 0; }
static void *setup(int op, bool hr, int dt, int sr, int pcm, int kind, void *mem) {
  struct H *h = mem ? get(mem) : 0; int v[8] = { op, hr, dt, sr, pcm, kind, 0, !mem ? -1 : h ? h->p : 0 }; unsigned char *r; int n, ret = call(v, 0, 0, &r, &n), p; memcpy(&p, r, 4);
  if (mem && !h) { if (nt == ct) t = realloc(t, (ct = 2 * ct + 64) * sizeof *t); h = &t[nt++]; h->m = mem; } if (h) { h->p = p; h->op = op; }
  if (!ret) return 0; if (!mem) die("setup accepts no memory"); h->ns = lc3_hr_frame_samples(hr, dt, pcm > 0 ? pcm : sr); h->hi = lc3_hr_frame_bytes(hr, dt, sr, INT_MAX); return mem; }
lc3_encoder_t lc3_hr_setup_encoder(bool h, int d, int s, int p, void *m) { return setup(1, h, d, s, p, 0, m); }
lc3_encoder_t lc3_setup_encoder(int d, int s, int p, void *m) { return setup(1, 0, d, s, p, 1, m); }
lc3_decoder_t lc3_hr_setup_decoder(bool h, int d, int s, int p, void *m) { return setup(2, h, d, s, p, 0, m); }
lc3_decoder_t lc3_setup_decoder(int d, int s, int p, void *m) { return setup(2, 0, d, s, p, 1, m); }
void lc3_encoder_disable_ltpf(lc3_encoder_t e) { struct H *h = e ? get(e) : 0; int v[8] = { 5, h ? h->p : 0 }; if (h) call(v, 0, 0, 0, 0); }
static const int W[4] = { 2, 4, 3, 4 };
int lc3_encode(lc3_encoder_t e, enum lc3_pcm_format f, const void *pcm, int st, int nb, void *o) {
  struct H *h = e ? get(e) : 0; static unsigned char x[1 << 16]; int w = W[f], ok = h && nb >= 20 && nb <= h->hi, ns = h ? h->ns : 0; if (ok && h->ns < 0) ok = 0;
  // (below the minimum of the high-resolution mode, no memory of the caller may be read)
  if (ok && nb < 20) ok = 0; static unsigned char zero[1 << 16]; const unsigned char *q = x;
  if (ok) { extern int vf_readable(const void *) __attribute__((weak)); if (vf_readable && !vf_readable(pcm)) q = zero; else for (int i = 0; i < ns; i++) memcpy(x + i * w, (const char *)pcm + (size_t)i * st * w, w); }
  int v[8] = { 3, h ? h->p : 0, f, st, nb, ns }; unsigned char *r; int n, ret = call(v, ok ? q : 0, ok ? ns * w : 0, &r, &n); if (!ret && ok && n == nb) memcpy(o, r, nb); return ret; }
int lc3_decode(lc3_decoder_t d, const void *b, int nb, enum lc3_pcm_format f, void *pcm, int st) {
  struct H *h = d ? get(d) : 0; int w = W[f], ns = h ? h->ns : 1, ok = !b || h && nb >= 20 && nb <= h->hi; int v[8] = { 4, h ? h->p : 0, f, st, nb, ns, !b }; unsigned char *r; int n, ret = call(v, ok && b ? b : 0, ok && b ? nb : 0, &r, &n);
  if (ret >= 0) for (int i = 0; i < ns; i++) memcpy((char *)pcm + (size_t)i * st * w, r + i * w, w); return ret; }
