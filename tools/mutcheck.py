#!/usr/bin/env python3
"""mutcheck.py PROP TMP e1,e2: engine only, stops at the first counterexample (for mut.py)"""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
p, tmp, es = sys.argv[1:4]
sxp, sk = check.build_program(tmp, p, "quick", lambda m: None)
if sk: print("CAUGHT skipped-sources? INTERNAL", sk) if False else print("INTERNAL skipped", sk)
for e in es.split(","):
    out = tmp+"/o.json"; sp = [x for x in check.spec.PROPS[p]["entries"] if x["name"] == e][0]
    subprocess.run([check.ENG+"/sx", sxp, "--entry", e, "--out", out, "--workers", "2", "--time", "100", "--maxinst", str(sp.get("maxinst", 60000000))], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try: j = json.load(open(out)); os.unlink(out)
    except Exception: print("INTERNAL", e, "engine died"); continue
    if j["verdict"] == "violation": print("CAUGHT", e, [l for l in j["violation"].split("\n") if l.startswith("MSG")][:1]); break
    if j["verdict"] == "internal": print("INTERNAL", e, j.get("internal", "")[:200])
    if j["verdict"] == "incomplete": print("INCOMPLETE", e)
    miss = [r for r in sp.get("reach", [0]) if not j.get("reach", [1])[r]]
    if miss: print("INTERNAL", e, "unreached")
