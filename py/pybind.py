"""P23 : the Python binding against the C library, called directly with separated channels.
arguments : repo=DIR lib=FILE.so [old=FILE.so]"""
import sys, os, random, ctypes, array, math, gc
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
C = Ctx(); sys.path.insert(0, C.arg("repo") + "/python"); sys.dont_write_bytecode = True
import lc3
L = clib(C.arg('lib')); LIB = C.arg('lib')
def cfgs():
    o = []
    S = [8000, 16000, 24000, 32000, 48000]
    for dt in (2500, 5000, 7500, 10000):
        o += [(False, dt, s, p) for s in S for p in S if p >= s]
        if dt != 7500: o += [(True, dt, 48000, 48000), (True, dt, 48000, 96000), (True, dt, 96000, 96000)]
    return o
def signal(r, n, ch, fs):
    f = [50 * 2 ** (r.random() * 6) for _ in range(ch)]; kind = r.randrange(4); amp = r.choice((1, .7, .1, .001)); dc = r.choice((0, 0, .3, -.9)) if kind == 2 else 0
    def at(t, k): return (amp * math.sin(2 * math.pi * f[k] * t / fs) if kind < 2 else dc + (1 - abs(dc)) * amp * (2 * r.random() - 1) if kind == 2 else (r.random() < .02) * amp * r.choice((-1, 1)))
    return at
def expect_raise(fn, what):
    try: fn()
    except lc3.InvalidArgumentError: C.count("refused_calls"); return
    except Exception as e: return C.fail("%s raises %r instead of InvalidArgumentError" % (what, e))
    C.fail("%s is accepted" % what)
def run(item, cfg, r):
    hr, dt, sr, pcm = cfg; ch = r.choice((1, 1, 2, 2, 3, 4, 6, 8)); kw = {} if pcm == sr and r.random() < .5 else None
    name = "%s%.1fms/%dHz(pcm %d) channels %d item %d" % ("HR/" if hr else "", dt / 1000, sr, pcm, ch, item); C.ctx = name
    args = (dt, sr) if ch == 1 and not hr and r.random() < .3 else (dt, sr, ch, hr); kw = {} if pcm == sr and r.random() < .5 else None
    E = lc3.Encoder(*args, libpath=LIB, **({} if kw is not None else dict(input_sample_rate_hz=pcm))); D = lc3.Decoder(*args, libpath=LIB, **({} if kw is not None else dict(output_sample_rate_hz=pcm)))
    ie, idc = Inst("encoder", hr, dt, sr, pcm, ch), Inst("decoder", hr, dt, sr, pcm, ch); ns = ie.ns; r2 = random.Random(item)
    for o in (E, D):
        if o.get_frame_samples() != ns: C.fail("get_frame_samples() %d" % o.get_frame_samples())
        if o.get_delay_samples() != L.lc3_hr_delay_samples(ctypes.c_bool(hr), dt, pcm): C.fail("get_delay_samples() %d" % o.get_delay_samples())
        for br in (0, 2147483647, r.randrange(1000000), r.randrange(3000000)):
            if o.get_frame_bytes(br) != L.lc3_hr_frame_block_bytes(hr, dt, sr, ch, br): C.fail("get_frame_bytes(%d) %d" % (br, o.get_frame_bytes(br)))
        for n in (0, 1, r.randrange(20, 3000), r.randrange(20, 3000)):
            if o.resolve_bitrate(n) != L.lc3_hr_resolve_bitrate(ctypes.c_bool(hr), dt, sr, n): C.fail("resolve_bitrate(%d)" % n)
        expect_raise(lambda: o.get_frame_bytes(-1), "get_frame_bytes(-1)"); expect_raise(lambda: o.resolve_bitrate(-1), "resolve_bitrate(-1)")
    lo, hi = LO(hr, dt, sr), HI(hr, dt); nb = ch * r.randrange(lo, hi + 1); at = signal(r, ns, ch, pcm); t = 0; last = b""
    for n in range(10):
        if C.nfail: break
        k = r.randrange(8)
        if k == 0: nb = ch * lo + r.randrange(ch * (hi - lo) + 1)
        elif k == 1: nb = r.choice((ch * lo, ch * hi, ch * lo - 1, ch * hi + 1, 0, 5, ch * 19))
        bd = r.choice((16, 24, None)); m = ns * ch; keep = m if r.random() < .6 else r.randrange(m + 1) if r.random() < .7 else m + r.randrange(1, 40)
        v = [min(max(at(t + i // ch, i % ch), -1), 1) for i in range(keep)]; t += ns
        if r.random() < .05: v = [r.choice((1., -1.))] * keep # constant, at the full scale
        C.ctx = "%s frame %d bit depth %s bytes %d samples %d of %d" % (name, n, bd, nb, keep, m)
        if bd is None: a = array.array("f", v); raw = a.tobytes(); form = r.randrange(7); p = [lambda: a, lambda: list(a), lambda: tuple(a), lambda: raw, lambda: bytearray(raw), lambda: (x for x in a), lambda: memoryview(a)][form]()
        else:
            q = [int(min(max(round(x * (1 << bd - 1)), -(1 << bd - 1)), (1 << bd - 1) - 1)) for x in v]; raw = b"".join((x & (1 << bd) - 1).to_bytes(bd // 8, "little") for x in q)
            if keep < m and raw and r.random() < .3: raw = raw[:-1] # last sample not complete
            form = r.randrange(3); p = [lambda: raw, lambda: bytearray(raw), lambda: memoryview(raw)][form]()
        C.ctx += " input %d" % form
        full = raw + bytes(m * W[bd] - len(raw)) if len(raw) < m * W[bd] else raw; want = enc(ie, full, nb, bd); snap = bytes(raw)
        try: got = E.encode(p, nb, bit_depth=bd) if bd or r.random() < .5 else E.encode(p, nb)
        except lc3.InvalidArgumentError: got = None
        C.count("encoded_blocks")
        if want is None: C.count("refused_calls")
        if (got is None) != (want is None): C.fail("encode() %s, the C library %s" % ("refuses" if got is None else "accepts", "refuses" if want is None else "accepts"))
        elif got is not None and (type(got) is not bytes or got != want): C.fail("encode() gives another result than the C library (%s of %d, first difference %s)" % (type(got).__name__, len(got), next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), "-")))
        if form == 1 and bd and bytes(p) != snap: C.fail("encode() modifies its input")
        if want: last = want; C.distinct(want)
        # decoding
        data = bytearray(want if want else last if last else bytes(ch * lo)); k = r.randrange(6)
        if k == 0: data = bytearray(r.randbytes(len(data)))
        elif k == 1 and data: data[r.randrange(len(data))] ^= 1 << r.randrange(8)
        elif k == 2: data = bytearray(r.randbytes(r.choice((1, ch * lo, ch * hi, ch * hi + 1, ch * 20 - 1))))
        bd = r.choice((16, 24, None)); C.ctx = "%s frame %d decoding bit depth %s of %d bytes" % (name, n, bd, len(data)); want = dec(idc, bytes(data), bd); snap = bytes(data)
        try: got = D.decode([bytes(data), data, memoryview(data)][r.randrange(3)], bit_depth=bd) if bd or r.random() < .5 else D.decode(bytes(data))
        except lc3.InvalidArgumentError: got = None
        C.count("decoded_blocks")
        if want is None: C.count("refused_calls")
        if (got is None) != (want is None): C.fail("decode() %s, the C library %s" % ("refuses" if got is None else "accepts", "refuses" if want is None else "accepts"))
        elif got is not None:
            if bd is None and not (isinstance(got, array.array) and got.typecode == "f" and len(got) == m) or bd and type(got) is not bytes: C.fail("decode() returns %s of %d" % (type(got).__name__, len(got)))
            elif (got.tobytes() if bd is None else got) != want: C.fail("decode() gives other samples than the C library")
            C.distinct(want)
        if bytes(data) != snap: C.fail("decode() modifies its input")
        # refused calls, without consequence on the next frames
        if r.random() < .3:
            C.ctx = name + " frame %d refused calls" % n
            expect_raise(lambda: E.encode(bytes(m * 4), nb, bit_depth=r.choice((8, 32, 0, -16, 20))), "a bad bit depth"); expect_raise(lambda: D.decode(bytes(ch * lo), bit_depth=r.choice((8, 32, 0, -16))), "a bad bit depth")
            bad = [0.] * m; bad[r.randrange(m)] = r.choice((math.nan, math.inf, -math.inf)); expect_raise(lambda: E.encode(bad, ch * lo), "a sample not finite")
    C.count("streams")
    if item % 37 == 1: C.sample(C.ctx)
def constructors():
    for cls, kw in ((lc3.Encoder, "input_sample_rate_hz"), (lc3.Decoder, "output_sample_rate_hz")):
        for dt in (0, -1, 10, 2499, 3000, 7000, 9999, 20000, 100000): C.ctx = "%s dt %d" % (cls.__name__, dt); expect_raise(lambda: cls(dt, 48000, libpath=LIB), "a bad frame duration")
        for hr in (False, True):
            for sr in (0, -8000, 44100, 11025, 12000, 22050, 96000, 192000, 48001) + ((8000, 16000, 24000, 32000) if hr else ()):
                if hr and sr == 96000: continue
                C.ctx = "%s hr %d sr %d" % (cls.__name__, hr, sr); expect_raise(lambda: cls(10000, sr, 1, hr, libpath=LIB), "a bad sample rate")
        for hr, dt, sr, pcm in ((False, 10000, 48000, 44100), (False, 10000, 48000, 16000), (False, 7500, 16000, 8000), (True, 7500, 48000, 48000), (False, 10000, 48000, 96000), (True, 10000, 96000, 48000), (False, 10000, 16000, 11025)):
            C.ctx = "%s %s" % (cls.__name__, (hr, dt, sr, pcm))
            def use():
                o = cls(dt, sr, 1, hr, libpath=LIB, **{kw: pcm}); o.encode(bytes(8000), 100, bit_depth=16) if cls is lc3.Encoder else o.decode(bytes(100), bit_depth=16)
            expect_raise(use, "parameters refused by the library")
    C.ctx = "no library"
    try: lc3.Encoder(10000, 48000, libpath="/nonexistent/liblc3.so"); C.fail("missing library accepted")
    except Exception: pass
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4096
def leaks():
    C.ctx = "instances created, used and released"; g = [.1] * 960 * 8
    def round_(n):
        for i in range(n):
            e = lc3.Encoder(10000, 96000, 8, True, libpath=LIB); d = lc3.Decoder(10000, 96000, 8, True, libpath=LIB); C.count("instances", 16)
            if i % 16 == 0: b = e.encode(g, 8 * 200); d.decode(b); e.encode(b"", 8 * 200, bit_depth=24)
            del e, d
            if i % 32 == 0: gc.collect()
    round_(64); gc.collect(); a = rss(); round_(320); gc.collect(); b = rss()
    if b - a > 24 << 20: C.fail("%d bytes kept after the release of 320 encoders and decoders" % (b - a))
def old(so):
    """a library without the high-resolution interface"""
    for ch in (1, 2, 3, 8):
        for dt, sr in ((10000, 48000), (7500, 16000), (2500, 8000), (5000, 32000)):
            C.ctx = "library without high-resolution, %d us %d Hz channels %d" % (dt, sr, ch); ns = dt * sr // 1000000
            e = lc3.Encoder(dt, sr, ch, libpath=so); d = lc3.Decoder(dt, sr, ch, libpath=so); ie, idc = Inst("encoder", False, dt, sr, sr, ch), Inst("decoder", False, dt, sr, sr, ch)
            for br in (0, 64000 * ch, 2147483647):
                n = e.get_frame_bytes(br); C.count("refused_calls", 0)
                if n != L.lc3_hr_frame_block_bytes(False, dt, sr, ch, br) and abs(n - L.lc3_hr_frame_block_bytes(False, dt, sr, ch, br)) > ch: C.fail("get_frame_bytes(%d) %d" % (br, n))
            if e.get_frame_samples() != ns or e.get_delay_samples() != L.lc3_hr_delay_samples(ctypes.c_bool(False), dt, sr): C.fail("number of samples")
            for k in range(4):
                x = bytes((i * 37 + k * i * i) & 255 for i in range(ns * ch * 2)); w = enc(ie, x, 60 * ch, 16); g = e.encode(x, 60 * ch, bit_depth=16); C.count("encoded_blocks"); C.count("decoded_blocks")
                if g != w: C.fail("encode() gives another result than the C library"); break
                if d.decode(g, bit_depth=24) != dec(idc, w, 24): C.fail("decode() gives another result than the C library"); break
            try: lc3.Encoder(10000, 48000, 1, True, libpath=so); C.fail("high-resolution accepted with a library without it")
            except lc3.InitializationError: pass
try:
    if C.shard == 0 and C.only < 0:
        constructors()
        if not C.has("asan"): leaks()
        if C.arg("old"): old(C.arg("old"))
    item = 0
    for s in range(max(1, int(4 * C.scale))):
        for cfg in cfgs():
            item += 1
            if C.mine(item) and not C.stop(): run(item, cfg, random.Random(C.seed * 1000003 + item))
except Exception as e:
    import traceback; C.fail("exception %r %s" % (e, traceback.format_exc().strip().splitlines()[-3:-1]))
C.finish()
