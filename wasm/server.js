// Serves the calls of the WebAssembly module to the harness (see shim.c), with guards around all memory given to it
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const env = {}; for (const i of WebAssembly.Module.imports(mod)) { if (i.kind !== 'function' || i.module !== 'env') { console.error('import', i); process.exit(4); } const f = { log10f: Math.log10, sqrtf: Math.sqrt, expf: Math.exp, powf: Math.pow, cosf: Math.cos, sinf: Math.sin, log2f: Math.log2, log10: Math.log10, exp2f: x => 2 ** x, ldexpf: (x, n) => x * 2 ** n, scalbnf: (x, n) => x * 2 ** n, logf: Math.log, tanf: Math.tan, roundf: x => Math.sign(x) * Math.floor(Math.abs(x) + .5), fmodf: (a, b) => a % b, sqrt: Math.sqrt }[i.name]; env[i.name] = (...a) => { if (!f) throw new Error('call of ' + i.name); return Math.fround(f(...a)); }; }
const inst = new WebAssembly.Instance(mod, { env }), X = inst.exports, mem = X.memory; const names = Object.keys(X);
const PAGE = 65536; let top = mem.buffer.byteLength; const G = 64, GV = 0xc9; let u8 = new Uint8Array(mem.buffer);
function grow(n) { const p = Math.ceil((n + 4 * G) / PAGE); const at = mem.grow(p) * PAGE; u8 = new Uint8Array(mem.buffer); return at; }
// scratch zones of inputs and outputs, contexts by bump allocation
const IN = grow(16 << 20), OUT = grow(16 << 20); let brk = 0, lim = 0; const slots = new Map(); // wasm pointer -> size
function ctx(n) { n = (n + 7) & ~7; if (brk + n + 3 * G > lim) { const z = Math.max(4 << 20, n + 4 * G); brk = grow(z); lim = brk + z; } const p = (brk + G + 7) & ~7; brk = p + n; slots.set(p, n); return p; }
function paint(p, n, k = 0) { u8.fill(GV, p - G, p); u8.fill(GV, p + n, p + n + G); if (k) u8.fill(GV, p, p + n); }
function check(p, n, what) { u8 = u8.buffer === mem.buffer ? u8 : new Uint8Array(mem.buffer); for (let i = 1; i <= G; i++) if (u8[p - i] !== GV || u8[p + n + i - 1] !== GV) throw new Error('memory written ' + (u8[p - i] !== GV ? i + ' bytes before ' : i + ' bytes past ') + what); }
function rd(n) { const b = Buffer.alloc(n); let k = 0; while (k < n) { const r = fs.readSync(0, b, k, n - k); if (!r) process.exit(0); k += r; } return b; }
function wr(b) { let k = 0; while (k < b.length) k += fs.writeSync(1, b, k); }
const bytes = [2, 4, 3, 4], free = new Map();
function slot(h, n) { // context of the handle h, of exactly n bytes
  if (h && slots.get(h) === ((n + 7) & ~7)) return h; if (h) { const k = slots.get(h); free.set(k, (free.get(k) || []).concat(h)); }
  const f = free.get((n + 7) & ~7); return f && f.length ? f.pop() : ctx(n); }
const size = new Map();
function serve(a, pay) {
  const [op, a0, a1, a2, a3, a4, a5, a6] = a; let out = null, ret = 0;
  switch (op) {
    case 0: ret = X[pay.toString()](...[a1, a2, a3, a4, a5].slice(0, a0)); break;
    case 1: case 2: { // setup hr dt sr pcm kind(0 lc3_hr_setup, 1 lc3_setup) previous handle
      const E = op === 1 ? 'encoder' : 'decoder', hr = a4 ? 0 : a0, n = X['lc3_hr_' + E + '_size'](hr, a1, a3 > 0 ? a3 : a2) >>> 0; const none = a6 === -1;
      const p = none ? 0 : slot(a6, n || 8); if (p) { const m = (n + 7) & ~7 || 8; size.set(p, m); paint(p, m); }
      const r = a4 ? X['lc3_setup_' + E](a1, a2, a3, p) : X['lc3_hr_setup_' + E](a0, a1, a2, a3, p); if (r && r !== p) throw new Error('setup returns another address');
      if (p) check(p, size.get(p), 'the context, by setup'); ret = r; out = Buffer.alloc(4); out.writeInt32LE(p); break; }
    case 3: { // encode handle fmt stride nbytes ns
      const w = bytes[a1], span = pay.length ? ((a4 - 1) * a2 + 1) * w : 0, al = a1 === 2 ? 1 : w; if (span > 15 << 20) throw new Error('span'); const p = IN + 64 + (a1 === 2 ? 1 : 0); if (span) { paint(p, span, 1); for (let i = 0; i < a4; i++) u8.set(pay.subarray(i * w, i * w + w), p + i * a2 * w); }
      const nb = a3 > 0 && a3 < 100000 ? a3 : 0, o = OUT + 65; paint(o, nb, 1); ret = X.lc3_encode(a0, a1, p, a2, a3, o); check(o, nb, 'the frame'); if (a0) check(a0, size.get(a0), 'the context, by lc3_encode()'); if (span) check(p, span, 'the samples');
      if (ret) { for (let i = 0; i < nb; i++) if (u8[o + i] !== GV) throw new Error('output written by a refused call'); } out = Buffer.from(u8.subarray(o, o + nb)); break; }
    case 4: { // decode handle fmt stride nbytes ns lost
      const w = bytes[a1], span = ((a4 - 1) * a2 + 1) * w, p = OUT + 64 + (a1 === 2 ? 1 : 0); if (span > 15 << 20) throw new Error('span'); paint(p, Math.max(span, 0), 1); let q = 0; if (!a5) { q = IN + 65; paint(q, pay.length); u8.set(pay, q); }
      ret = X.lc3_decode(a0, q, a3, a1, p, a2); check(p, span, 'the samples'); if (a0) check(a0, size.get(a0), 'the context, by lc3_decode()'); if (q) { check(q, pay.length, 'the input'); if (Buffer.compare(Buffer.from(u8.subarray(q, q + pay.length)), pay)) throw new Error('input modified'); }
      out = Buffer.alloc(a4 * w); for (let i = 0; i < a4; i++) { out.set(u8.subarray(p + i * a2 * w, p + i * a2 * w + w), i * w); if (a2 > 1 && i + 1 < a4) for (let k = 1; k < a2; k++) if (u8[p + (i * a2 + k) * w] !== GV) throw new Error('samples of other channels written'); }
      if (ret < 0) for (let i = 0; i < span; i++) if (u8[p + i] !== GV) throw new Error('output written by a refused call'); break; }
    case 5: X.lc3_encoder_disable_ltpf(a0); break;
    case 6: { const l = names.sort().join(' '); out = Buffer.from(l); break; }
  }
  return [ret, out || Buffer.alloc(0)]; }
for (;;) { const h = rd(36), a = []; for (let i = 0; i < 8; i++) a.push(h.readInt32LE(4 * i)); const n = h.readInt32LE(32), pay = n ? rd(n) : Buffer.alloc(0);
  let ret, out; try { [ret, out] = serve(a, pay); } catch (e) { ret = -77777; out = Buffer.from(String(e.message || e)); }
  const r = Buffer.alloc(8 + out.length); r.writeInt32LE(ret | 0, 0); r.writeInt32LE(out.length, 4); out.copy(r, 8); wr(r); }
