"""P22 : the tools on malformed, truncated and hostile files, in builds with sanitizers.
arguments : lib=FILE.so tmp=DIR elc3.NAME=EXE dlc3.NAME=EXE (NAME : asan, msan, zero, pattern)"""
import sys, os, random, struct, subprocess, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from files import *
C = Ctx(); L = clib(C.arg("lib")); TMP = os.path.join(C.arg("tmp"), "s%d" % C.shard); os.makedirs(TMP, exist_ok=True)
EXE = {t: {r.split("=")[0].split(".")[1]: r.split("=", 1)[1] for r in C.rest if r.startswith(t + ".")} for t in ("elc3", "dlc3")}
V16 = (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 32, 40, 80, 250, 480, 500, 750, 960, 1000, 1001, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff); V32 = V16 + (8000, 16000, 44100, 48000, 96000, 192000, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xfffffff0, 100000000)
def mutate(r, b, head):
    b = bytearray(b)
    for _ in range(r.choice((0, 1, 1, 1, 2, 3, 6))):
        k = r.randrange(9); n = len(b)
        if not n: break
        at = r.randrange(min(n, head)) if r.random() < .7 else r.randrange(n)
        if k == 0: b[at] ^= 1 << r.randrange(8)
        elif k == 1: b[at] = r.randrange(256)
        elif k <= 3 and n > 4: at &= ~1; b[at:at + 2] = struct.pack("<H", r.choice(V16))
        elif k == 4 and n > 4: at &= ~1; b[at:at + 4] = struct.pack("<I", r.choice(V32))
        elif k == 5: del b[at:]
        elif k == 6: del b[at:at + r.choice((1, 2, 4, 8, 50))]
        elif k == 7: b[at:at] = r.randbytes(r.choice((1, 2, 4, 8, 24, 300)))
        elif k == 8: b[at:at] = b[r.randrange(n):][:r.choice((4, 8, 24, 100))]
    return b
def consistent(r, b):
    """a WAVE header whose byte rate agrees with extreme values of the other fields"""
    ch = r.choice((1, 2, 2, 3, 255, 65535)); al = r.choice((ch, 2 * ch, 3 * ch, 4 * ch, 8 * ch, 1, 0, 2 * ch + 1, 65535)) & 65535; sr = r.choice((8000, 48000, 44100, 1, 0x7fffffff, 0xffffffff, 96000)); bits = r.choice((8, 16, 24, 24, 16, 32, 0, 65535)); i = b.find(b"fmt ")
    if i >= 0 and len(b) > i + 24: b[i + 10:i + 24] = struct.pack("<HIIHH", ch, sr, sr * al & 0xffffffff, al, bits)
def tame(r, b, kind):
    """announced lengths that processing is not too long for"""
    if kind == "wav":
        for m in re.finditer(b"data", bytes(b)):
            at = m.end()
            if len(b) >= at + 4 and struct.unpack("<I", b[at:at + 4])[0] > 200000: b[at:at + 4] = struct.pack("<I", r.randrange(60000))
    elif len(b) >= 18:
        hs = 14
        if struct.unpack("<I", b[hs:hs + 4])[0] > 30000: b[hs:hs + 4] = struct.pack("<I", r.randrange(6000))
def one(item, r):
    kind = r.choice(("wav", "lc3")); hr = r.random() < .3; dt = r.choice((2500, 5000, 10000) if hr else (2500, 5000, 7500, 10000)); sr = r.choice((48000, 96000) if hr else (8000, 16000, 24000, 32000, 48000)); ch = r.choice((1, 2)); ns = dt * sr // 1000000; n = r.choice((0, 1, ns, 3 * ns + 7, r.randrange(6 * ns)))
    hi = HI(hr, dt)
    if kind == "wav":
        bits, w = r.choice(((16, 2), (24, 3), (24, 4))); d = wav(r, r.randbytes(n * ch * w), ch, sr, bits, w, r.random() < .3); b = mutate(r, d, 60)
        if r.random() < .3: consistent(r, b)
        cmd = ["-b", str(r.choice((64000, 64000, 1, 2147483647, 500000, r.randrange(2000000))))] + ["-m", "%g" % (dt / 1000)] + (["-H"] if hr else []) + (["-r", str(r.choice((sr, 8000, 16000, 48000)))] if r.random() < .4 else []); t = "elc3"
    else:
        edge = r.random() < .2; B = (0, 1, ch, ch * 19, ch * 20, ch * hi, ch * 625, 1250, 1251, 65535, r.randrange(3000)) # all block sizes around the limits, in sound files
        fr = [r.randbytes(max(0, min(65535, r.choice(B) + r.choice((-1, 0, 0, 1, 2, 3))))) for _ in range(n // ns + 2)] if edge else [r.randbytes(r.choice((ch * 20, ch * hi, r.randrange(1, ch * 625 + 1), ch * r.randrange(20, hi + 1), ch * r.randrange(20, hi + 1)))) for _ in range(n // ns + 2)]; d = lc3_file(hr, sr, 64000, ch, dt, n, fr, r.random() < .3); b = bytearray(d) if edge else mutate(r, d, 24); C.count("limit_sizes", edge)
        cmd = ["-b", r.choice(("16", "24"))] + (["-r", str(r.choice((sr, 48000, 96000, 32000)))] if r.random() < .4 else []); t = "dlc3"
        if r.random() < .1 and len(b) > 18: b[18:20] = struct.pack("<H", r.choice(V16))
    huge = item % 61 == 0
    if not huge: tame(r, b, kind)
    else:
        if kind == "lc3" and len(b) >= 18: b[14:18] = struct.pack("<I", r.choice((0x7fffffff, 0x7fffff00, 0x80000000, 0xffffffff, 0x7ffffff8 - 480)))
        elif b.find(b"data") >= 0: at = b.find(b"data") + 4; b[at:at + 4] = struct.pack("<I", r.choice((0x7fffffff, 0xffffffff, 0xfffffffe, 0x80000000, 0xfffffc00)))
    if r.random() < .02: b = bytearray(r.randbytes(r.randrange(200)))
    fi, fo = os.path.join(TMP, "in"), os.path.join(TMP, "out"); open(fi, "wb").write(b); pipe = r.random() < .3
    C.ctx = "%s %s, %d bytes%s, item %d, start of the file %s" % (t, " ".join(cmd), len(b), ", piped" if pipe else "", item, bytes(b[:72]).hex()); C.count("files"); C.count("files_" + kind); C.distinct(bytes(b))
    names = ["asan", "msan"] if item % 3 else ["asan"]
    if item % 4 == 0 and not huge: names += ["zero", "pattern"]
    seen = {}
    for nm in names:
        if nm not in EXE[t]: continue
        if os.path.exists(fo): os.unlink(fo)
        env = dict(os.environ, MALLOC_PERTURB_="85" if nm == "pattern" else "0"); out = "/dev/null" if huge else fo
        try:
            if pipe: p = subprocess.run([EXE[t][nm]] + cmd, input=bytes(b), stdout=open(out, "wb"), stderr=subprocess.PIPE, timeout=2 if huge else 100, env=env)
            else: p = subprocess.run([EXE[t][nm]] + cmd + [fi, out], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=2 if huge else 100, env=env)
        except subprocess.TimeoutExpired:
            if huge: C.count("long_runs_stopped")
            else: C.fail("%s : endless processing" % nm)
            continue
        C.count("runs_" + nm); e = p.stderr.decode(errors="replace"); o = open(fo, "rb").read() if not huge and os.path.exists(fo) else b""; seen[nm] = (p.returncode, o)
        if p.returncode < 0 or p.returncode == 77 or "Sanitizer" in e or "runtime error" in e:
            m = re.search("runtime error: .*|SUMMARY: .*", e); C.fail("%s : status %d : %s" % (nm, p.returncode, re.sub("0x[0-9a-f]+", "0x..", m.group(0)) if m else e.strip()[-200:])); return
        C.count("accepted" if p.returncode == 0 else "rejected")
        if p.returncode: 
            if not e.strip(): C.fail("%s : status %d without message" % (nm, p.returncode))
        elif not huge:
            q = parse_wav(o) if t == "dlc3" else parse_lc3(o)
            if isinstance(q, str): C.fail("%s : success with a bad output : %s" % (nm, q))
            elif t == "elc3":
                hrm, esr, br, nch, fus, cnt, frames = q
                if hrm not in (0, 1) or nch not in (1, 2) or fus not in (2500, 5000, 7500, 10000) or esr not in (8000, 16000, 24000, 32000, 48000, 96000): C.fail("%s : success with a bad output : %s" % (nm, q[:6]))
                elif any(not nch * 20 <= len(f) <= nch * 625 for f in frames): C.fail("%s : frame sizes" % nm)
                elif fus * esr // 1000000 * len(frames) < cnt: C.fail("%s : %d frames for %d samples" % (nm, len(frames), cnt))
            elif q[0] != 1 or q[1] not in (1, 2) or q[3] not in (16, 24): C.fail("%s : success with a bad output : %s" % (nm, q[:5]))
    if "zero" in seen and "pattern" in seen:
        C.count("initialisation_compared")
        if seen["zero"] != seen["pattern"]: C.fail("the output depends on memory not initialised (status %d and %d, %s)" % (seen["zero"][0], seen["pattern"][0], "sizes %d %d" % (len(seen["zero"][1]), len(seen["pattern"][1]))))
    if item % 211 == 1: C.sample(C.ctx)
def options(r):
    """arguments of all kinds : the instrumented tools end with a message"""
    A = ["-b", "-m", "-r", "-H", "-h", "-", "--", "", "-x", "0", "-1", "64000", "2.5", "7.5", "10", "nan", "inf", "-inf", "1e9", "99999999999999999999", "16", "24", "48000", "96000", "8000", "/nonexistent/a", TMP, TMP + "/in", "/dev/null", "-bb"]
    open(TMP + "/in", "wb").write(r.choice((wav(r, bytes(4000), 1, 48000, 16, 2, True), lc3_file(0, 48000, 64000, 1, 10000, 480, [bytes(80)]))))
    for k in range(int(150 * C.scale)):
        a = [r.choice(A) for _ in range(r.randrange(8))]; t = r.choice(("elc3", "dlc3")); nm = r.choice([x for x in ("asan", "msan") if x in EXE[t]]); C.ctx = "%s %s" % (t, a); C.count("option_lists")
        try: p = subprocess.run([EXE[t][nm]] + a, stdin=open(TMP + "/in", "rb"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60, cwd=TMP)
        except subprocess.TimeoutExpired: C.fail("endless processing"); continue
        e = p.stderr.decode(errors="replace")
        if p.returncode < 0 or p.returncode == 77 or "Sanitizer" in e or "runtime error" in e:
            m = re.search("runtime error: .*|SUMMARY: .*", e); C.fail("%s : status %d : %s" % (nm, p.returncode, m.group(0) if m else e.strip()[-200:])); break
try:
    options(random.Random(C.seed * 31 + C.shard))
    for item in range(1, int(2500 * C.scale) + 1):
        if C.mine(item) and not C.stop(): one(item, random.Random(C.seed * 1000003 + item))
except Exception as e:
    import traceback; C.fail("exception %r %s" % (e, traceback.format_exc().strip().splitlines()[-3:-1]))
import shutil; shutil.rmtree(TMP, ignore_errors=True)
C.finish()
