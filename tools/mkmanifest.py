#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks defined in vf/checks.py and the notes below."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
impl = re.findall(r"^@check\ndef (P\d+)", open(ROOT + "/vf/checks.py").read(), re.M)
NOTE = json.load(open(ROOT + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in impl:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd="python3 vf/run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 vf/run.py %s" % i,
            evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
    else: na.append(dict(property=i, reason=NOTE.get("na", {}).get(i, "the check is being built")))
m = dict(version=1, setup_cmd="python3 vf/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
