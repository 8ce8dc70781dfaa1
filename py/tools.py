"""P21 : the tools of /repo/tools and /repo/python/tools on files, against a model of the files calling the C library.
arguments : repo=DIR lib=FILE.so elc3=EXE dlc3=EXE tmp=DIR [py]"""
import sys, os, random, struct, subprocess, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from files import *
C = Ctx(); L = clib(C.arg("lib")); sys.dont_write_bytecode = True
TMP = os.path.join(C.arg("tmp"), "s%d" % C.shard); os.makedirs(TMP, exist_ok=True)
PYENV = dict(os.environ, PYTHONPATH=C.arg("repo") + "/python", PYTHONDONTWRITEBYTECODE="1")

def tool(cmd, data, r, name, mode=None):
    """Runs a tool between files or pipes; status, output, messages"""
    fi, fo = os.path.join(TMP, "in"), os.path.join(TMP, "out"); mode = r.randrange(4) if mode is None else mode; C.count("runs_" + name); C.count("pipes", mode > 0)
    for p in (fi, fo):
        if os.path.exists(p): os.unlink(p)
    kw = dict(stderr=subprocess.PIPE, timeout=120, env=PYENV)
    if mode in (0, 1):
        with open(fi, "wb") as f: f.write(data)
    if mode == 0: p = subprocess.run(cmd + [fi, fo], stdout=subprocess.DEVNULL, stdin=subprocess.DEVNULL, **kw); out = open(fo, "rb").read() if os.path.exists(fo) else b""
    elif mode == 1: p = subprocess.run(cmd + [fi], stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, **kw); out = p.stdout
    elif mode == 2: p = subprocess.run(cmd, stdout=subprocess.PIPE, input=data, **kw); out = p.stdout
    else: # shell redirections
        with open(fi, "wb") as f: f.write(data)
        with open(fi, "rb") as a, open(fo, "wb") as b: p = subprocess.run(cmd, stdout=b, stdin=a, **kw)
        out = open(fo, "rb").read()
    return p.returncode, out, p.stderr.decode(errors="replace")
def show(a, b):
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b))); return "%d bytes for %d expected, first difference at %d" % (len(a), len(b), k)
def signal(r, n, ch, fs):
    k = r.randrange(3); f = [60 * 2 ** (r.random() * 5) for _ in range(ch)]; a = r.choice((1, .8, .1))
    return lambda t, c: min(max(a * (math.sin(2 * math.pi * f[c] * t / fs) if k < 2 else 2 * r.random() - 1), -1), 1)

def model_encode(hr, dt, sr, esr, ch, bd, w, raw, n, br):
    """the file that elc3 has to write, and its frames"""
    nb = L.lc3_hr_frame_block_bytes(hr, dt, sr, ch, br); I = Inst("encoder", hr, dt, esr, sr, ch); ns = I.ns; total = n + L.lc3_hr_delay_samples(hr, dt, sr); fs = ch * w; frames = []
    raw = raw[:n * fs]; raw = raw[:len(raw) // fs * fs]
    for at in range(0, total, ns):
        x = raw[at * fs:(at + ns) * fs]; x += bytes(ns * fs - len(x)); frames.append(enc(I, x, nb, bd))
    return frames, L.lc3_hr_resolve_bitrate(hr, dt, sr, nb)
def model_decode(hr, dt, sr, osr, ch, bd, n, frames):
    I = Inst("decoder", hr, dt, sr, osr, ch); ns = I.ns; d = L.lc3_hr_delay_samples(hr, dt, osr); w = bd // 8; out = []; nerr = 0
    for k, at in enumerate(range(0, n + d, ns)):
        f = frames[k] if k < len(frames) else None
        if f is None: out.append(bytes(ns * ch * w)); continue
        # a channel whose frame is refused is concealed
        chs = []; p = 0
        for c in range(ch):
            m = split(len(f), c, ch); o = ctypes.create_string_buffer(ns * w + 1); r = L.lc3_decode(I.h[c], ctypes.create_string_buffer(f[p:p + m], m + 1), m, F[bd], o, 1)
            if r < 0: L.lc3_decode(I.h[c], None, 0, F[bd], o, 1)
            nerr += r != 0; chs.append(o.raw[:ns * w]); p += m
        out.append(weave(chs, w))
    return b"".join(out)[d * ch * w:(n + d) * ch * w], nerr

def configs():
    S = [8000, 16000, 24000, 32000, 48000]; o = []
    for dt in (2500, 5000, 7500, 10000):
        o += [(False, dt, sr, e) for sr in S for e in S if e <= sr]
        if dt != 7500: o += [(True, dt, 48000, 48000), (True, dt, 96000, 96000), (True, dt, 96000, 48000)]
    return o
def item_c(item, cfg, r):
    hr, dt, sr, esr = cfg; ch = r.choice((1, 2)); bits, w, bd = r.choice(((16, 2, 16), (24, 3, 24), (24, 4, 32))); ns = dt * sr // 1000000
    n = r.randrange(65536, 140000) // ch if item % 40 == 7 else r.choice((0, 1, r.randrange(1, ns + 1), ns, ns + 1, r.randrange(1, 12 * ns), r.randrange(1, 12 * ns), 5 * ns, 40 * ns))
    at = signal(r, n, ch, sr); lim = 1 << bits - 1; raw = b"".join(int(min(max(round(at(t, c) * lim), -lim), lim - 1)).to_bytes(w, "little", signed=True) for t in range(n) for c in range(ch))
    lo, hi = LO(hr, dt, sr), HI(hr, dt); nb = ch * lo + r.randrange(ch * (hi - lo) + 1); br = r.choice((L.lc3_hr_resolve_bitrate(hr, dt, sr, nb), r.randrange(1, 3000000), 64000 * ch, 1, 2147483647))
    plain = r.random() < .4; f = wav(r, raw, ch, sr, bits, w, plain); decl = n
    if r.random() < .15 and raw: # file cut in its data : silence to the announced length
        cut = r.randrange(len(raw)); f = f[:f.index(b"data" + struct.pack("<I", len(raw))) + 8 + cut]; raw = raw[:cut]; C.count("files_cut")
    C.ctx = "%s%.1fms/%dHz encoded at %d, %d channels, %d bits in %d bytes, %d samples, bitrate %d, item %d" % ("HR/" if hr else "", dt / 1000, sr, esr, ch, bits, w, n, br, item)
    cmd = [C.arg("elc3"), "-b", str(br)] + (["-m", "%g" % (dt / 1000)] if dt != 10000 or r.random() < .5 else []) + (["-H"] if hr else []) + (["-r", str(esr)] if esr != sr or r.random() < .3 else [])
    st, out, err = tool(cmd, f, r, "elc3")
    frames, rbr = model_encode(hr, dt, sr, esr, ch, bd, w, raw, decl, br); want = lc3_file(hr, esr, rbr, ch, dt, decl * esr // sr, frames)
    if st: C.fail("elc3 fails, status %d : %s" % (st, err.strip()[-200:])); return
    C.count("files_encoded"); C.count("blocks", len(frames)); C.distinct(out)
    if out != want:
        p = parse_lc3(out); q = parse_lc3(want)
        C.fail("elc3 : %s; %s, expected %s" % (show(out, want), p if isinstance(p, str) else p[:6] + (len(p[6]),), q[:6] + (len(q[6]),)))
        return
    # decoding, of this file or of one with other sizes, losses and damages
    n2 = decl * esr // sr; k = r.randrange(4); ext = False
    if k >= 1:
        if k == 1: frames = [r.randbytes(len(x)) if r.random() < .2 else x for x in frames]
        elif k == 2: frames = [x[:r.randrange(1, len(x))] if r.random() < .2 else x for x in frames]; frames = [x if r.random() < .9 else r.randbytes(r.choice((1, 2, 19, 20, 39, 40, ch * hi, ch * hi - 1, ch * 625))) for x in frames]
        elif k == 3: frames = frames[:r.randrange(len(frames) + 1)]; ext = r.random() < .5
        out = lc3_file(hr, esr, rbr, ch, dt, n2, frames, ext); C.count("files_damaged")
    osr = r.choice([s for s in ((48000, 96000) if hr else (8000, 16000, 24000, 32000, 48000)) if s >= esr]) if r.random() < .5 else esr
    if hr and osr != esr and dt == 7500: osr = esr
    b2 = r.choice((16, 24)); cmd = [C.arg("dlc3")] + (["-b", str(b2)] if b2 != 16 or r.random() < .5 else []) + (["-r", str(osr)] if osr != esr or r.random() < .3 else [])
    C.ctx += " decoded at %d, %d bits, kind %d" % (osr, b2, k); st, o2, err = tool(cmd, out, r, "dlc3", mode=r.choice((0, 1, 3)) if ext else None); n3 = n2 * osr // esr; w, nerr = model_decode(hr, dt, esr, osr, ch, b2, n3, frames)
    if st: C.fail("dlc3 fails, status %d : %s" % (st, err.strip()[-200:])); return
    p = parse_wav(o2); C.count("files_decoded"); C.distinct(o2); C.count("frames_concealed", nerr)
    if isinstance(p, str): C.fail("dlc3 writes a bad file : %s" % p)
    elif p[:5] != (1, ch, osr, b2, b2 // 8): C.fail("dlc3 writes the format %s" % (p[:5],))
    elif p[5] != w: C.fail("dlc3 : samples : %s" % show(p[5], w))
    if ("Decoding of %d frames failed" % nerr in err) != (nerr > 0) or "failed" in err and not nerr: C.fail("dlc3 reports %r for %d frames" % (err.strip()[-60:], nerr))
    if item % 29 == 1: C.sample(C.ctx)
def item_py(item, cfg, r):
    """the tools in Python and in C read the files of each other"""
    hr, dt, sr, _ = cfg; ch = r.choice((1, 2, 2, 3, 5)); bits = r.choice((16, 24)); w = bits // 8; ns = dt * sr // 1000000; n = r.choice((0, 1, ns, r.randrange(1, 8 * ns), 5 * ns + 1))
    at = signal(r, n, ch, sr); lim = 1 << bits - 1; raw = b"".join(int(min(max(round(at(t, c) * lim), -lim), lim - 1)).to_bytes(w, "little", signed=True) for t in range(n) for c in range(ch))
    br = r.choice((64000 * ch, r.randrange(10000, 300000) * ch)); C.ctx = "Python, %.1fms/%dHz, %d channels, %d bits, %d samples, bitrate %d, item %d" % (dt / 1000, sr, ch, bits, n, br, item); T = C.arg("repo") + "/python/tools/"
    st, out, err = tool([sys.executable, T + "encoder.py", "--bitrate", str(br), "--libpath", C.arg("lib")] + (["--frame_duration", "%g" % (dt / 1000)] if dt != 10000 or r.random() < .5 else []), wav(r, raw, ch, sr, bits, w, True), r, "encoder_py", mode=r.choice((0, 1, 3)))
    if st: C.fail("encoder.py fails : %s" % err.strip()[-200:]); return
    frames, rbr = model_encode(False, dt, sr, sr, ch, bits, w, raw, n, br); want = lc3_file(False, sr, rbr, ch, dt, n, frames); C.count("files_encoded"); C.count("blocks", len(frames)); C.distinct(out)
    p = parse_lc3(out)
    if isinstance(p, str): C.fail("encoder.py writes a bad file : %s" % p); return
    if out != want and (p[6] != frames or p[:6] != parse_lc3(want)[:6]): C.fail("encoder.py : %s" % show(out, want)); return
    for name, cmd in (("decoder_py", [sys.executable, T + "decoder.py", "--libpath", C.arg("lib"), "--bit_depth"]), ("dlc3", [C.arg("dlc3"), "-b"])):
        if name == "dlc3" and ch > 2: continue
        b2 = r.choice((16, 24)); st, o2, err = tool(cmd + [str(b2)], out, r, name, mode=r.choice((0, 1, 3)) if name != "dlc3" else None); C.ctx += " " + name
        if st: C.fail("%s fails : %s" % (name, err.strip()[-200:])); return
        w2, nerr = model_decode(False, dt, sr, sr, ch, b2, n, frames); p = parse_wav(o2); C.count("files_decoded"); C.distinct(o2)
        if isinstance(p, str): C.fail("%s writes a bad file : %s" % (name, p))
        elif p[1:5] != (ch, sr, b2, b2 // 8): C.fail("%s writes the format %s" % (name, p[:5]))
        elif p[5] != w2: C.fail("%s : samples : %s" % (name, show(p[5], w2)))
def start_of(cmd, data, n):
    """first n bytes of what a tool writes, before it is stopped"""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try: p.stdin.write(data); p.stdin.close()
    except BrokenPipeError: pass
    b = p.stdout.read(n); p.kill(); p.wait(); p.stdout.close(); return b
def announced(r):
    """long files : what their header announces, processing is not waited for"""
    for k in range(max(24, int(12 * C.scale))):
        ch = r.choice((1, 2)); bits, w = r.choice(((16, 2), (24, 3), (24, 4))); sr = r.choice((8000, 16000, 24000, 32000, 48000)); esr = r.choice([s for s in (8000, 16000, 24000, 32000, 48000) if s <= sr]); top = 0xffffffff // (ch * w)
        n = min(top, r.choice((65535, 65536, 1 << 17, (1 << 24) - 1, 1 << 24, (1 << 24) + r.randrange(1 << 20), 1 << 28, r.randrange(1 << 30), 1 << 30, (1 << 31) - 1, top, r.randrange(1, 1 << r.randrange(17, 32)))))
        C.ctx = "elc3, %d samples of %d bytes, %d channels, %d Hz encoded at %d" % (n, w, ch, sr, esr); C.count("long_files")
        h = b"RIFF" + struct.pack("<I", min(0xffffffff, 36 + n * ch * w)) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 1, ch, sr, sr * ch * w, ch * w, bits) + b"data" + struct.pack("<I", n * ch * w)
        b = start_of([C.arg("elc3"), "-b", "64000"] + (["-r", str(esr)] if esr != sr else []), h, 18); want = n * esr // sr
        if len(b) < 18 or struct.unpack("<I", b[14:18])[0] != want or struct.unpack("<HH", b[:4]) != (0xcc1c, 18): C.fail("announces %s, expected %d samples" % (b[14:18].hex(), want))
        osr = r.choice([s for s in (8000, 16000, 24000, 32000, 48000) if s >= esr]); b2 = r.choice((16, 24)); ch = r.choice((1, 2)); n = min(n, 0x7fffffff * esr // osr, (0xffffffff - 60) // (ch * b2 // 8) * esr // osr)
        C.ctx = "dlc3, %d samples of %d bits, %d channels, %d Hz decoded at %d" % (n, b2, ch, esr, osr)
        b = start_of([C.arg("dlc3"), "-b", str(b2)] + (["-r", str(osr)] if osr != esr else []), lc3_file(False, esr, 64000, ch, 10000, n, [bytes(80 * ch)] * 3), 44); want = n * osr // esr * ch * b2 // 8
        if len(b) < 44 or b[36:40] != b"data" or struct.unpack("<I", b[40:44])[0] != want or struct.unpack("<I", b[4:8])[0] != want + 36: C.fail("announces %s, expected %d bytes" % (b[:44].hex(), want))
def refused():
    """bad parameters : a message and a failure, no endless processing"""
    r = random.Random(1); ok = wav(r, bytes(960 * 4), 2, 48000, 16, 2, True); lc3 = lc3_file(False, 48000, 64000, 1, 10000, 480, [bytes(80)] * 2)
    E, D = C.arg("elc3"), C.arg("dlc3"); W = lambda ch=1, sr=48000, bits=16, w=2: wav(r, bytes(960 * ch * w), ch, sr, bits, w, True)
    X = lambda **k: lc3_file(k.get("hr", False), k.get("sr", 48000), 64000, k.get("ch", 1), k.get("dt", 10000), 480, [bytes(80)] * 2)
    todo = [([E], ok), ([E, "-b", "0"], ok), ([E, "-b", "-64000"], ok), ([E, "-b"], ok), ([E, "-x"], ok), ([E, "-bb", "1"], ok), ([E, "-b", "64000", "a", "b", "c"], ok), ([E, "-b", "64000", "/nonexistent/x"], ok)]
    todo += [([E, "-b", "64000", "-m", m], ok) for m in ("0", "-10", "3", "20", "9.99", "x", "1e30", "nan")] + [([E, "-b", "64000", "-r", m], W(sr=32000)) for m in ("48000", "44100", "-8000", "1", "96000", "2147483648")]
    todo += [([E, "-b", "64000", "-H"], W(sr=s)) for s in (8000, 16000, 24000, 32000, 44100)] + [([E, "-b", "64000", "-H", "-m", "7.5"], W())] + [([E, "-b", "64000"], W(sr=s)) for s in (11025, 22050, 44100, 96000, 192000)]
    todo += [([E, "-b", "64000"], W(ch=c)) for c in (3, 4, 8)] + [([E, "-b", "64000"], W(bits=b, w=w)) for b, w in ((8, 1), (32, 4), (20, 3), (16, 4), (16, 3), (24, 2))]
    todo += [([D, "-b", b], lc3) for b in ("0", "8", "32", "-16", "x")] + [([D, "-r", s], lc3) for s in ("44100", "32000", "8000", "96000", "-1")] + [([D], X(ch=c)) for c in (0, 3, 65535)] + [([D], X(dt=d)) for d in (0, 10, 20000, 3000, 655350)]
    todo += [([D], X(sr=s)) for s in (0, 44100, 96000, 6553500)] + [([D], X(hr=True, sr=s)) for s in (8000, 32000, 44100)] + [([D], X(hr=True, dt=7500)), ([D], b""), ([D], lc3[:17]), ([D], b"\0" + lc3[1:]), ([D, "/nonexistent/x"], lc3), ([D], ok), ([E, "-b", "64000"], lc3), ([E, "-b", "64000"], ok[:40]), ([E, "-b", "64000"], b"")]
    todo += [([E, "-b", "64000"], ok[:k] + bytes([ok[k] ^ b]) + ok[k + 1:]) for k in (0, 3, 8, 11) for b in (1, 32)] + [([E, "-b", "64000"], ok.replace(b"fmt ", b"fmx ")), ([E, "-b", "64000"], ok.replace(b"data", b"dato"))] # marks of a WAVE file
    for cmd, data in todo:
        C.ctx = "%s with %d bytes" % (" ".join(os.path.basename(x) for x in cmd), len(data))
        try: p = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=PYENV, cwd=TMP)
        except subprocess.TimeoutExpired: C.fail("endless processing"); continue
        C.count("refused_calls")
        if p.returncode == 0: C.fail("bad parameters or file accepted (%s)" % p.stderr.decode(errors="replace").strip()[-100:])
        elif p.returncode < 0: C.fail("signal %d" % -p.returncode)
        elif not p.stderr.strip(): C.fail("failure without message")
    for t in (E, D):
        p = subprocess.run([t, "-h"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if p.returncode or b"Usage" not in p.stdout + p.stderr: C.ctx = t; C.fail("help")
try:
    if C.shard == 0 and C.only < 0: refused()
    if C.only < 0: announced(random.Random(C.seed * 77 + C.shard))
    item = 0
    for s in range(max(1, int(4 * C.scale))):
        for cfg in configs():
            item += 1
            if C.mine(item) and not C.stop(): item_c(item, cfg, random.Random(C.seed * 1000003 + item))
    for s in range(max(1, int(2 * C.scale))):
        for cfg in configs():
            item += 1
            if cfg[2] == cfg[3] and not cfg[0] and C.mine(item) and not C.stop(): item_py(item, cfg, random.Random(C.seed * 1000003 + item))
except Exception as e:
    import traceback; C.fail("exception %r %s" % (e, traceback.format_exc().strip().splitlines()[-3:-1]))
import shutil; shutil.rmtree(TMP, ignore_errors=True)
C.finish()
