"""Shared part of the workloads in Python : same command line and results as the harnesses"""
import sys, time, json, random, zlib, collections, ctypes
class Ctx:
    def __init__(s):
        s.seed = 1; s.shard, s.shards = 0, 1; s.scale = 1.0; s.budget = 60.0; s.only = -1; s.rest = []
        a = sys.argv[1:]; i = 0
        while i < len(a):
            if a[i] in ("--seed", "--scale", "--budget", "--only"): setattr(s, a[i][2:], (int if a[i] in ("--seed", "--only") else float)(a[i + 1])); i += 1
            elif a[i] == "--shard": s.shard, s.shards = map(int, a[i + 1].split("/")); i += 1
            else: s.rest.append(a[i])
            i += 1
        s.t0 = time.time(); s.c = collections.Counter(); s.d = set(); s.samples = []; s.nfail = 0; s.ctx = ""
    def arg(s, k, d=None):
        for r in s.rest:
            if r.startswith(k + "="): return r[len(k) + 1:]
        return d
    def has(s, k): return k in s.rest
    def count(s, k, n=1): s.c[k] += n
    def distinct(s, b): s.d.add(zlib.crc32(b) | len(b) << 32)
    def sample(s, t):
        if len(s.samples) < 6: s.samples.append(t)
    def fail(s, m):
        s.nfail += 1
        if s.nfail <= 8: print("FAIL %s | %s" % (str(m).replace("\n", " ")[:900], s.ctx), flush=True)
    def timeup(s): return time.time() - s.t0 > s.budget
    def mine(s, i): return i == s.only if s.only >= 0 else i % s.shards == s.shard
    def stop(s): return s.timeup() or s.nfail >= 8
    def finish(s):
        print("RESULT " + json.dumps(dict(distinct=len(s.d), counters=dict(s.c), samples=s.samples, time_up=int(s.timeup()))), flush=True); sys.exit(1 if s.nfail else 0)

# ---- The C library, one instance for each channel
L = None; c_int, vp = ctypes.c_int, ctypes.c_void_p
def clib(path):
    global L
    L = ctypes.CDLL(path)
    for k in ("encoder", "decoder"):
        f = getattr(L, "lc3_hr_setup_" + k); f.argtypes = [ctypes.c_bool, c_int, c_int, c_int, vp]; f.restype = vp
        f = getattr(L, "lc3_hr_%s_size" % k); f.argtypes = [ctypes.c_bool, c_int, c_int]; f.restype = ctypes.c_uint
    for f, a in (("frame_samples", 2), ("delay_samples", 2), ("frame_bytes", 3), ("frame_block_bytes", 4), ("resolve_bitrate", 3)): getattr(L, "lc3_hr_" + f).argtypes = [ctypes.c_bool] + [c_int] * a
    L.lc3_encode.argtypes = [vp, c_int, vp, c_int, c_int, vp]; L.lc3_decode.argtypes = [vp, vp, c_int, c_int, vp, c_int]
    return L
class Inst:
    def __init__(s, kind, hr, dt, sr, pcm, n):
        s.mem = [ctypes.create_string_buffer(getattr(L, "lc3_hr_%s_size" % kind)(hr, dt, pcm) + 16) for _ in range(n)]
        s.h = [getattr(L, "lc3_hr_setup_" + kind)(hr, dt, sr, pcm, m) for m in s.mem]; s.ns = dt * pcm // 1000000; s.n = n
def split(n, k, ch): return n // ch + (1 if k < n % ch else 0)
W = {16: 2, 24: 3, None: 4, 32: 4}; F = {16: 0, 24: 2, None: 3, 32: 1}
def enc(I, raw, nb, bd):
    """raw : interleaved bytes of all the samples -> frames, or None when refused"""
    w = W[bd]; out = b""
    for k in range(I.n):
        ch = b"".join(raw[(i * I.n + k) * w:(i * I.n + k + 1) * w] for i in range(I.ns)); b = ctypes.create_string_buffer(ch, len(ch) + 1); n = split(nb, k, I.n); o = ctypes.create_string_buffer(n + 1)
        if L.lc3_encode(I.h[k], F[bd], b, 1, n, o): return None
        out += o.raw[:n]
    return out
def decs(I, data, bd):
    """status and samples of the channels"""
    w = W[bd]; st, chs = [], []; at = 0
    for k in range(I.n):
        n = 0 if data is None else split(len(data), k, I.n); o = ctypes.create_string_buffer(I.ns * w + 1)
        st.append(L.lc3_decode(I.h[k], None if data is None else ctypes.create_string_buffer(data[at:at + n], n + 1), n, F[bd], o, 1)); chs.append(o.raw[:I.ns * w]); at += n
    return st, chs
def weave(chs, w): return b"".join(c[i:i + w] for i in range(0, len(chs[0]), w) for c in chs)
def dec(I, data, bd):
    at = 0; w = W[bd]; chs = []
    for k in range(I.n):
        n = split(len(data), k, I.n); o = ctypes.create_string_buffer(I.ns * w + 1)
        if L.lc3_decode(I.h[k], ctypes.create_string_buffer(data[at:at + n], n + 1), n, F[bd], o, 1) < 0: return None
        chs.append(o.raw[:I.ns * w]); at += n
    return weave(chs, w)
HI = lambda hr, dt: {2500: 210, 5000: 375, 10000: 625}[dt] if hr else 400
LO = lambda hr, dt, sr: L.lc3_hr_frame_bytes(hr, dt, sr, 0)
