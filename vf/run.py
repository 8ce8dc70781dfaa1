#!/usr/bin/env python3
"""Runs the check of one property.

    vf/run.py Pxx            (VERIF_SEED, VERIF_TIER in the environment)
    vf/run.py --replay FILE  run again the job that reported a violation

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION
line), 2 the check could not be run."""
import json, os, sys, time, hashlib, glob, subprocess, threading, re, shlex, fnmatch
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(ROOT, "build"))
JOBS = int(os.environ.get("VF_JOBS", "8"))
EVID = os.environ.get("VF_EVIDENCE", os.path.join(ROOT, "evidence"))
sys.path.insert(0, os.path.join(ROOT, "vf"))

class BuildError(Exception): pass
_lock = threading.Lock()
pool = ThreadPoolExecutor(JOBS)

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def _digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def repo_files(*pats):
    o = []
    for p in pats: o += glob.glob(os.path.join(REPO, p), recursive=True)
    return [p for p in o if os.path.isfile(p)]

def own_files(*pats):
    o = []
    for p in pats: o += glob.glob(os.path.join(ROOT, p), recursive=True)
    return [p for p in o if os.path.isfile(p)]

# ---- Variants of the library ------------------------------------------------
FAST = ["-O3", "-ffast-math"]
SANU = ["-fsanitize=undefined,float-cast-overflow,integer-divide-by-zero", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"]
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-Dno_sanitize(x)="] + ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"]
EMU = os.path.join(ROOT, "emu")
VARIANTS = {
    # name : (compiler, flags of the library, flags of harness + link)
    "prod":   ("gcc", FAST, []),
    "asan":   ("clang", SAN, ["-fsanitize=address,undefined"]),
    "msan":   ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins"], ["-fsanitize=memory", "-O1"]),
    "tsan":   ("clang", ["-O1", "-g", "-ffast-math", "-fsanitize=thread"], ["-fsanitize=thread", "-pthread"]),
    "clang":  ("clang", ["-O3", "-ffast-math"], []),
    "gccO0":  ("gcc", ["-O0"], []),
    "gccO2":  ("gcc", ["-O2"], []),
    "clangOs":("clang", ["-Os"], []),
    "native": ("gcc", FAST + ["-march=native"], []),
    "noplus": ("gcc", FAST + ["-DLC3_PLUS=0", "-DLC3_PLUS_HR=0"], ["-DLC3_PLUS=0", "-DLC3_PLUS_HR=0"]),
    "nohr":   ("gcc", FAST + ["-DLC3_PLUS=1", "-DLC3_PLUS_HR=0"], ["-DLC3_PLUS=1", "-DLC3_PLUS_HR=0"]),
    "noplus_asan": ("clang", SAN + ["-DLC3_PLUS=0", "-DLC3_PLUS_HR=0"], ["-fsanitize=address,undefined", "-DLC3_PLUS=0", "-DLC3_PLUS_HR=0"]),
    "nohr_asan": ("clang", SAN + ["-DLC3_PLUS=1", "-DLC3_PLUS_HR=0"], ["-fsanitize=address,undefined", "-DLC3_PLUS=1", "-DLC3_PLUS_HR=0"]),
    "uchar":  ("gcc", ["-O2", "-funsigned-char", "-fsingle-precision-constant"], []),
    # code for Arm, on emulated intrinsics
    "neon":   ("gcc", FAST + ["-I" + EMU, "-D__ARM_NEON=1", "-D__ARM_ARCH_ISA_A64=1"], []),
    "neon_asan": ("clang", SAN + ["-I" + EMU, "-D__ARM_NEON=1", "-D__ARM_ARCH_ISA_A64=1", "-D__ARM_ARCH=8", "-D__ARM_FEATURE_SAT=1"], ["-fsanitize=address,undefined"]),
    "simd32": ("gcc", FAST + ["-fno-lto", "-I" + EMU, "-D__ARM_FEATURE_SIMD32=1", "-D__ARM_ARCH=7", "-D__ARM_FEATURE_SAT=1", "-include", EMU + "/arm_fix.h"], []),
    "simd32_asan": ("gcc", [f for f in SAN if "no_sanitize" not in f] + ["-I" + EMU, "-D__ARM_FEATURE_SIMD32=1", "-include", EMU + "/arm_fix.h"], ["-fsanitize=address,undefined"]),
    "wasm":   ("gcc", ["@wasm"], []),
    "wasm_noplus": ("gcc", ["@wasm", "-DLC3_PLUS=0", "-DLC3_PLUS_HR=0"], ["-DLC3_PLUS=0", "-DLC3_PLUS_HR=0"]),
    "pyasan": ("gcc", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"], []),
    "cost":   ("clang", ["-O1", "-ffast-math", "-fsanitize-coverage=trace-pc-guard"], []),
}

def _run_cc(cmd):
    r = sh(cmd)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

def build_wasm(variant, fl):
    """The WebAssembly module, with the options of the Makefile, behind the interface of the library"""
    src = sorted(repo_files("src/*.c")); dg = _digest(repo_files("src/*.[ch]", "include/*.h", "wasm/*.h") + own_files("wasm/*"), fl)
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, dg)); out = d + "/liblc3.a"
    if os.path.exists(out): return out
    os.makedirs(d, exist_ok=True); objs = [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in src]; W = ["clang", "--target=wasm32"]
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_run_cc, [*W, "-O3", "-std=c11", "-w", "-ffast-math", *fl[1:], "-I", os.path.join(REPO, "wasm"), "-mbulk-memory", "-I", os.path.join(REPO, "include"), "-c", s, "-o", o]) for s, o in zip(src, objs)]: f.result()
    _run_cc([*W, "-O3", "-nostdlib", "-Wl,--no-entry", "-Wl,--export-dynamic", *objs, "-o", d + "/lc3.wasm"])
    _run_cc(["gcc", "-O2", "-w", "-I", os.path.join(REPO, "include"), "-DWASM_FILE=\"%s/lc3.wasm\"" % d, "-DWASM_SERVER=\"%s/wasm/server.js\"" % ROOT, "-c", ROOT + "/wasm/shim.c", "-o", d + "/shim.o"])
    _run_cc(["ar", "rcs", out + ".tmp%d" % os.getpid(), d + "/shim.o"]); os.rename(out + ".tmp%d" % os.getpid(), out)
    return out

def build_lib(variant):
    cc, fl, _ = VARIANTS[variant]
    if fl[:1] == ["@wasm"]: return build_wasm(variant, fl)
    fl = [f.replace("@REPO", REPO) for f in fl]
    src = sorted(repo_files("src/*.c"))
    dg = _digest(repo_files("src/*.[ch]", "include/*.h") + own_files("emu/*"), (cc, fl))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, dg)); out = d + "/liblc3.a"
    if os.path.exists(out): return out
    os.makedirs(d, exist_ok=True)
    objs = [os.path.join(d, os.path.basename(s)[:-2] + ".o") for s in src]
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_run_cc, [cc, "-std=c11", "-w", *fl, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "test"), "-c", s, "-o", o]) for s, o in zip(src, objs)]: f.result()
    tmp = out + ".tmp%d" % os.getpid()
    _run_cc(["ar", "rcs", tmp, *objs]); os.rename(tmp, out)
    return out

def build_so(variant, hide=None):
    """The library as a shared object named after the variant, without the symbols of pattern `hide`"""
    cc, fl, _ = VARIANTS[variant]
    src = sorted(repo_files("src/*.c")); dg = _digest(repo_files("src/*.[ch]", "include/*.h") + own_files("emu/*.h"), (cc, fl, "so", hide))
    out = os.path.join(BUILD, "so-%s" % dg, "%s.so" % variant)
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True); tmp = out + ".tmp%d" % os.getpid()
    if hide:
        with open(out + ".map", "w") as f: f.write("{ local: %s; };\n" % hide)
        fl = fl + ["-Wl,--version-script=" + out + ".map"]
    _run_cc([cc, "-std=c11", "-w", *fl, "-fPIC", "-shared", "-I", os.path.join(REPO, "include"), *src, "-o", tmp, "-lm"]); os.rename(tmp, out)
    return out

def build_tool(name, variant, so=False, more=()):
    """A tool of /repo/tools built with options `more`, linked with the library variant (its shared object when `so`)"""
    cc, fl, hf = VARIANTS[variant]; lib = build_so(variant) if so else build_lib(variant); T = os.path.join(REPO, "tools"); inc = ["-I", os.path.join(REPO, "include")]
    src = [s for s in sorted(repo_files("tools/*.c")) if os.path.basename(s) not in ("elc3.c", "dlc3.c")] + [os.path.join(T, name + ".c")]
    dg = _digest(repo_files("tools/*.[ch]", "include/*.h") + [lib], (cc, fl, name, more)); out = os.path.join(BUILD, "%s-%s-%s" % (name, variant, dg))
    if os.path.exists(out): return out
    tmp = out + ".tmp%d" % os.getpid()
    _run_cc([cc, "-std=c11", "-w", *fl, *more, *inc, *src, lib, "-o", tmp, "-lm"]); os.rename(tmp, out)
    return out

def build_harness(name, variant, libs=None, opt=None):
    """The harness linked with the library variant"""
    cc, _, hf = VARIANTS[variant]
    lib = build_lib(variant); cxx = "clang++" if cc == "clang" else "g++"
    opt = opt if opt is not None else (["-O2"] if variant in ("prod",) or not hf or hf[0].startswith("-D") else ["-O1", "-g1"])
    src = os.path.join(ROOT, "harness", name + ".cc")
    flags = ["-std=c++17", "-w", *opt, *hf, "-I", os.path.join(REPO, "include")]
    # headers of the reference model are not instrumented for undefined behaviour, only addresses
    dg = _digest(own_files("harness/*.h", "ref/*.h") + [src, lib] + repo_files("include/*.h"), (cxx, flags))
    out = os.path.join(BUILD, "bin-%s-%s-%s" % (name, variant, dg))
    if os.path.exists(out): return out
    tmp = out + ".tmp%d" % os.getpid()
    _run_cc([cxx, *flags, src, lib, "-o", tmp, "-lm", "-pthread", "-ldl"]); os.rename(tmp, out)
    return out

def prebuild(pairs):
    """Builds several harnesses at the same time (errors come again at use)"""
    def one(hv):
        try: build_harness(*hv)
        except BuildError: pass
    with ThreadPoolExecutor(JOBS) as ex:
        libs = [ex.submit(lambda v=v: build_lib(v)) for v in sorted(set(v for h, v in pairs))]
        for f in libs: f.exception()
        for f in [ex.submit(one, hv) for hv in pairs]: f.result()

# ---- Jobs -------------------------------------------------------------------
ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77", MSAN_OPTIONS="exitcode=77",
           TSAN_OPTIONS="exitcode=77:halt_on_error=1:history_size=4", LC_ALL="C")

class Result:
    def __init__(s):
        s.counters = {}; s.distinct = 0; s.samples = []; s.fails = []; s.timeup = 0
    def merge_counters(s, c):
        for k, v in c.items(): s.counters[k] = s.counters.get(k, 0) + v
    def fail(s, msg, cmd, tail="", key=None, variant=None):
        s.fails.append(dict(msg=msg, cmd=cmd, tail=tail, variant=variant))

def sanitizer_summary(txt):
    m = re.search(r"^SUMMARY: (.*)$", txt, re.M); r = re.search(r"runtime error: (.*)$", txt, re.M); c = re.search(r"^CONTEXT (.*)$", txt, re.M)
    o = []
    if r: o.append(re.sub(r"0x[0-9a-f]+", "0x..", r.group(0)))
    if m: o.append(m.group(1))
    if c: o.append("[" + c.group(1) + "]")
    return "; ".join(o)

def run_proc(res, cmd, hard, label, variant=None, env=None):
    t = time.time()
    e = dict(ENV); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=hard, env=e, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode(errors="replace")
        with _lock: res.fail("%s: no answer within %d s (endless or excessively slow processing)" % (label, hard), cmd, out[-1500:], variant=variant)
        return
    out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    with _lock:
        got = False
        for l in out.splitlines():
            if l.startswith("FAIL "): res.fail("%s: %s" % (label, l[5:]), cmd, variant=variant); got = True
            elif l.startswith("RESULT "):
                j = json.loads(l[7:]); res.merge_counters(j["counters"]); res.distinct += j["distinct"]; res.timeup += j.get("time_up", 0)
                for s in j["samples"]:
                    if len(res.samples) < 8: res.samples.append(s)
        if p.returncode == 2: raise BuildError("%s: harness error\n%s" % (label, (out + err)[-2000:]))
        if p.returncode not in (0, 1):
            res.fail("%s: ended with status %d: %s" % (label, p.returncode, sanitizer_summary(err) or (err.strip().splitlines() or ["crash"])[-1][:300]), cmd, (out[-600:] + err[-3500:]), variant=variant)
        elif p.returncode == 1 and not got:
            res.fail("%s: failed %s" % (label, (out + err)[-300:]), cmd, variant=variant)

T0 = time.time()
def enough(res):
    """A violation is known and time is short (endless processing) : the other runs are left out"""
    return bool(res.fails) and (time.time() - T0 > 240 or any("no answer within" in f["msg"] for f in res.fails))

def run_harness(res, name, variant="prod", seed=1, scale=1.0, budget=60, shards=None, extra=(), env=None, hard=None, label=None):
    """Runs the 8 shards of an harness, and accumulates what they observed"""
    if enough(res): return
    b = build_harness(name, variant); shards = shards or JOBS
    hard = hard or max(300, 3 * budget + 120)
    lab = label or "%s/%s" % (name, variant)
    t = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(run_proc, res, [b, "--seed", str(seed), "--shard", "%d/%d" % (k, shards), "--scale", str(scale), "--budget", str(budget), *extra], hard, lab, variant, env) for k in range(shards)]
        for f in fs: f.result()
    log("   %-26s %6.1f s" % (lab, time.time() - t))

def ASAN_PYTHON():
    """Environment of the interpreter, to load a library built with sanitizers"""
    f = lambda n: subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE).stdout.decode().strip()
    return dict(LD_PRELOAD=f("libasan.so") + " " + f("libubsan.so") + " " + f("libstdc++.so.6"), PYTHONMALLOC="malloc")

def run_script(res, script, extra=(), seed=1, scale=1.0, budget=60, env=None, hard=None, label=None, variant=None):
    """Runs the 8 shards of a workload in Python"""
    if enough(res): return
    hard = hard or max(300, 3 * budget + 120); lab = label or script; t = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(run_proc, res, [sys.executable, "-B", os.path.join(ROOT, "py", script + ".py"), "--seed", str(seed), "--shard", "%d/%d" % (k, JOBS), "--scale", str(scale), "--budget", str(budget), *extra], hard, lab, variant, env) for k in range(JOBS)]
        for f in fs: f.result()
    log("   %-26s %6.1f s" % (lab, time.time() - t))

# ---- Known findings ---------------------------------------------------------
def known_findings(pid):
    """Lines `finding: property=<id> match=<glob> <description>`"""
    o = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) match=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid: o.append((m.group(2), m.group(3).strip()))
    return o

def main():
    if sys.argv[1] == "--replay":
        j = json.load(open(sys.argv[2])); import checks
        print("property", j["property"], ":", j["message"]); cmd = j["cmd"]
        if j.get("harness"): cmd[0] = build_harness(j["harness"], j["variant"])
        print("running:", " ".join(cmd)); sys.exit(subprocess.run(cmd, env=ENV).returncode)
    pid = sys.argv[1]; seed = int(os.environ.get("VERIF_SEED", "1") or 1); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID + "/replay", exist_ok=True)
    import checks
    res = Result(); t0 = time.time()
    try:
        info = checks.CHECKS[pid](res, seed, tier)
    except BuildError as ex:
        log("check %s could not be run: %s" % (pid, ex)); print("ERROR property=%s the check could not be built or run" % pid)
        if not res.fails: sys.exit(2)
        info = dict(evaluations=(), rule="stopped by an error, after the violations listed")
    wall = time.time() - t0
    known = known_findings(pid); new = []; seenk = set()
    for f in res.fails:
        k = next((d for g, d in known if fnmatch.fnmatch(f["msg"], g)), None)
        if k is None: new.append(f)
        elif k not in seenk: seenk.add(k); print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for d in set(d for g, d in known) - seenk: print("KNOWN-FINDING: property=%s %s" % (pid, d))
    ev = info.get("evaluations"); cov = dict(evaluations=int(res.counters.get(ev, 0)) if isinstance(ev, str) else int(sum(res.counters.get(k, 0) for k in ev)),
        distinct_nontrivial=int(res.distinct), rule=info["rule"], samples=res.samples[:8] or ["(none)"], observed={k: res.counters[k] for k in sorted(res.counters)})
    if res.timeup: cov["stopped_by_time_budget"] = res.timeup
    json.dump(dict(property=pid, tier=tier, seed=seed, level=info.get("level", "exploration"), coverage=cov, assumptions=info.get("assumptions", []),
        wall_s=round(wall, 2), violations=len(new)), open("%s/%s.json" % (EVID, pid), "w"), indent=1)
    rp = None
    for n, f in enumerate(new[:8]):
        path = "%s/replay/%s-%d.json" % (EVID, pid, n); cmd = list(f["cmd"])
        m = re.search(r"bin-(\w+)-(\w+)-[0-9a-f]{20}$", cmd[0]) if cmd else None
        it = re.search(r"\bitem (\d+)", f["msg"])
        if m and it and "--shard" in cmd: cmd += ["--only", it.group(1)]
        json.dump(dict(property=pid, seed=seed, message=f["msg"], cmd=cmd, harness=m.group(1) if m else None, variant=f["variant"], output=f["tail"]), open(path, "w"), indent=1)
        rel = os.path.relpath(path, ROOT)
        log("   violation: " + f["msg"][:400])
        print("VIOLATION property=%s replay=%s" % (pid, rel)); rp = rel
    if not new and not cov["evaluations"]:
        print("ERROR property=%s nothing was observed" % pid); sys.exit(2)
    print("%s: %s, %d evaluations, %d distinct, %.1f s" % (pid, "%d violations" % len(new) if new else "held", cov["evaluations"], cov["distinct_nontrivial"], wall))
    sys.exit(1 if new else 0)

if __name__ == "__main__": main()
