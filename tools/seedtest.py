#!/usr/bin/env python3
"""Confirms a planted bug in the scratch copy /tmp/sw/repo, and runs checks on it.
   seedtest.py ID [-n] [Pxx ...]   (-n : skip build, tests and demo)"""
import subprocess, sys, os, json, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/sw"; RP = W + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset(): sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s checkout -q -- ." % (RP, RP, RP))
def demo(i):
    d = W + "/demo"; shutil.rmtree(d, ignore_errors=True); shutil.copytree("%s/seeded/%s" % (V, i), d)
    for f in os.listdir(d):
        if f.endswith((".diff", ".json")): os.remove(d + "/" + f)
    s = sh("sed -i 's#/repo\\b#%s#g' %s/demo.sh; timeout 300 bash %s/demo.sh" % (RP, d, d), cwd=RP); return s.returncode, s.stdout[-300:].strip()
def main():
    i = sys.argv[1]; a = sys.argv[2:]; fast = "-n" in a; checks = [x for x in a if x != "-n"]
    P = "%s/seeded/%s/patch.diff" % (V, i); ok = True
    reset()
    if not fast:
        r = sh("bash %s/vp/build.sh" % W)
        c, o = demo(i); print("demo clean:", c, o.replace("\n", " | ")[-150:]); ok &= c == 0
    r = sh("git -C %s apply %s" % (RP, P))
    if r.returncode: print("patch does not apply", r.stdout); return
    if not fast:
        r = sh("bash %s/vp/test.sh %s/o.json" % (W, W)); base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
        got = set(json.load(open(W + "/o.json"))["passed"]); print("tests:", r.stdout.strip().splitlines()[-1], "missing:", sorted(base - got)[:4]); ok &= not (base - got)
        c, o = demo(i); print("demo patched:", c, o.replace("\n", " | ")[-200:]); ok &= c != 0
        print("VALID" if ok else "***** NOT VALID *****")
    env = dict(os.environ, VF_REPO=RP, VF_BUILD=W + "/build", VF_EVIDENCE=W + "/ev", VERIF_SEED="1")
    for c in checks:
        t = time.time(); r = sh("python3 %s/vf/run.py %s" % (V, c), env=env)
        v = [l for l in r.stdout.splitlines() if "violation:" in l]
        print("  %s rc=%d %.0fs %s" % (c, r.returncode, time.time() - t, (v or [r.stdout.strip()[-200:]])[0][:260]))
    reset()
main()
