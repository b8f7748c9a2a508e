#!/usr/bin/env python3
"""Driver: decide a property of /repo by symbolic execution of the real code.
   check.py <ID> [--tier quick|thorough] [--only entry] [--strict] [--jobs N]"""
import sys, os, json, subprocess, time, hashlib, tempfile, shutil, re, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, V)
import spec
ENG = os.path.join(V, "build", "engine")
INC = ["-I"+REPO, "-I"+REPO+"/lttoolbox", "-I"+V+"/harness"]
CFG = "-DHAVE_DECL_FGETC_UNLOCKED=1 -DHAVE_DECL_FMEMOPEN=1 -DHAVE_DECL_FPUTC_UNLOCKED=1 -DHAVE_DECL_FPUTS_UNLOCKED=1 -DHAVE_DECL_FREAD_UNLOCKED=1 -DHAVE_DECL_FWRITE_UNLOCKED=1 -DHAVE_GETOPT_LONG=1 -DPACKAGE_VERSION=\"3.8.4\" -D_GNU_SOURCE -D_POSIX_C_SOURCE=200112 -DNDEBUG -w".split()
SYSI = "-I/usr/include/libxml2 -I/usr/include/utf8cpp".split()
MODEL = ("-std=c++23 -fno-pic -fno-pie -nostdinc++ -isystem %s/model/include -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 "
         "-D_GLIBCXX_EXTERN_TEMPLATE=0 -D__NO_INLINE__ -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -c -emit-llvm" % V).split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build_engine():
    os.makedirs(ENG, exist_ok=True)
    h = hashlib.sha256()
    for f in ("prog.h", "expr.h", "irdump.cc", "sx.cc"):
        h.update(open(os.path.join(V, "engine", f), "rb").read())
    stamp = os.path.join(ENG, "stamp"); key = h.hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == key: return
    flags = sh(["llvm-config-18", "--cxxflags"]).stdout.replace("-fno-exceptions", "").split()
    jobs = [["g++", "-O2", "-std=c++17", "-w", V+"/engine/sx.cc", "-lz3", "-licuuc", "-licuio", "-licui18n", "-o", ENG+"/sx"],
            ["clang++", "-O1", "-w"] + [V+"/engine/irdump.cc"] + flags + ["-std=c++17", "-fexceptions", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-o", ENG+"/irdump"]]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode: raise SystemExit("engine build failed:\n" + r.stdout[-3000:])
    open(stamp, "w").write(key)

def repo_sources():
    d = REPO + "/lttoolbox"
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".cc") and f not in ("lt_locale.cc", "check-cstdint.cc"): out.append(os.path.join(d, f))
    return out

def mangled(m): return "_Z%d%s_mainiPPc" % (len(m)+5, m)
def rename_main_ir(path, m):
    """the tool's main under a name of its own, everything else in the file private to it"""
    t = open(path).read()
    open(path, "w").write(re.sub(r"@main\b", "@"+mangled(m), t))
    return sh(["opt-18", "-S", "-passes=internalize", "-internalize-public-api-list="+mangled(m), path, "-o", path])
def rename_main_obj(path, m):
    args = ["--redefine-sym", "main="+mangled(m)]
    for l in sh(["nm", "-g", "--defined-only", path]).stdout.splitlines():
        f = l.split()
        if len(f) == 3 and f[1] in "TDBR" and f[2] != "main": args += ["--localize-symbol", f[2]]
    return sh(["objcopy"] + args + [path])

def build_program(tmp, prop, tier, log):
    """compile the current tree + harness + environment model to one flat program"""
    sp = spec.PROPS[prop]; jobs = []
    srcs = [s for s in repo_sources() if not os.path.basename(s).startswith("lt_")]
    tier_n = "1" if tier == "thorough" else "0"
    for s in srcs: jobs.append((s, os.path.join(tmp, "r_"+os.path.basename(s)+".bc"), []))
    for m in sp.get("mains", []):
        jobs.append((os.path.join(REPO, "lttoolbox", m+".cc"), os.path.join(tmp, "m_"+m+".ll"), ["-S"]))
    for h in sp["harness"]: jobs.append((os.path.join(V, "harness", h+".cc"), os.path.join(tmp, "h_"+h+".bc"), ["-DTIER="+tier_n]))
    for r in ("runtime.cc", "runtime2.cc", "runtime_xml.cc"):
        if os.path.exists(os.path.join(V, "model", r)): jobs.append((os.path.join(V, "model", r), os.path.join(tmp, "e_"+r+".bc"), ["-fno-builtin"]))
    def comp(j):
        r = sh(["clang++"] + MODEL + INC + SYSI + CFG + j[2] + [j[0], "-o", j[1]])
        if r.returncode == 0 and j[1].endswith(".ll"): r = rename_main_ir(j[1], os.path.basename(j[1])[2:-3])
        return j, r
    bcs = []; skipped = []
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(comp, jobs):
            if r.returncode == 0: bcs.append(j[1])
            elif os.path.basename(j[1]).startswith("r_"): skipped.append((j[0], r.stdout))
            else: raise RuntimeError("cannot compile %s\n%s" % (j[0], r.stdout[-2000:]))
    if skipped:
        # does the real tree compile at all?
        for s, o in skipped: log("not encodable with the environment model: %s\n%s" % (s, o[-600:]))
    allbc = os.path.join(tmp, "all.bc")
    r = sh(["llvm-link-18"] + bcs + ["-o", allbc])
    if r.returncode: raise RuntimeError("llvm-link: " + r.stdout[-2000:])
    ents = ",".join(e["name"] for e in sp["entries"])
    r = sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list="+ents, allbc, "-o", os.path.join(tmp, "prog.bc")])
    if r.returncode: raise RuntimeError("opt: " + r.stdout[-2000:])
    r = sh([ENG+"/irdump", os.path.join(tmp, "prog.bc"), os.path.join(tmp, "prog.sxp")])
    if r.returncode: raise RuntimeError("irdump: " + r.stdout[-2000:])
    return os.path.join(tmp, "prog.sxp"), [os.path.relpath(s, REPO) for s, _ in skipped]

def build_native(tmp, prop, tier, plain=False):
    """the same harness against the real libraries, with AddressSanitizer"""
    sp = spec.PROPS[prop]; tier_n = "1" if tier == "thorough" else "0"
    # races are confirmed by ThreadSanitizer, everything else by AddressSanitizer
    san = "-fsanitize=thread" if sp.get("sanitizer") == "thread" and not plain else "-fsanitize=address,integer-divide-by-zero,unreachable"
    base = ["clang++", "-std=c++23", "-O1", "-g", san, "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"] + INC + SYSI + CFG
    jobs = [(s, os.path.join(tmp, "n_"+os.path.basename(s)+".o"), []) for s in repo_sources() if not os.path.basename(s).startswith("lt_")]
    jobs.append((REPO+"/lttoolbox/lt_locale.cc", os.path.join(tmp, "n_lt_locale.o"), []))
    for m in sp.get("mains", []):
        # a symbol of its own keeps AddressSanitizer's section names of the tools apart
        u = os.path.join(tmp, "u_"+m+".h"); open(u, "w").write("extern \"C\" { extern int hx_unit_%s; int hx_unit_%s = 1; }\n" % (m, m))
        jobs.append((os.path.join(REPO, "lttoolbox", m+".cc"), os.path.join(tmp, "nm_"+m+".o"), ["-include", u]))
    for h in sp["harness"]: jobs.append((os.path.join(V, "harness", h+".cc"), os.path.join(tmp, "nh_"+h+".o"), ["-DTIER="+tier_n]))
    exe = os.path.join(tmp, "replay")
    if os.path.exists(exe): return exe
    jobs.append((os.path.join(V, "harness", "native.cc"), os.path.join(tmp, "nn.o"), ["-DENTRY_LIST="+" ".join("X(%s)" % e["name"] for e in sp["entries"])]))
    with ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(lambda j: (j, sh(base + j[2] + ["-c", j[0], "-o", j[1]])), jobs):
            if r.returncode == 0 and os.path.basename(j[1]).startswith("nm_"): r = rename_main_obj(j[1], os.path.basename(j[1])[3:-2])
            if r.returncode: raise RuntimeError("native build: %s\n%s" % (j[0], r.stdout[-2000:]))
    objs = [j[1] for j in jobs]
    r = sh(["clang++", san] + objs + ["-lxml2", "-licuuc", "-licuio", "-licui18n", "-licudata", "-o", exe])
    if r.returncode: raise RuntimeError("native link: " + r.stdout[-2000:])
    if san == "-fsanitize=thread" and "FATAL: ThreadSanitizer" in sh([exe, os.devnull, "-"]).stdout:   # cannot run here
        os.remove(exe); return build_native(tmp, prop, tier, True)
    return exe

def replay(exe, varfile, entry):
    env = dict(os.environ, ASAN_OPTIONS="max_malloc_fill_size=1000000000:malloc_fill_byte=190:detect_leaks=0:exitcode=78:abort_on_error=0:allocator_may_return_null=1", TSAN_OPTIONS="exitcode=78:halt_on_error=1:report_signal_unsafe=0", LC_ALL="C.UTF-8")
    try:
        r = subprocess.run([exe, varfile, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=90, env=env, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return True, "timeout: the call does not return"
    if r.returncode == 0: return False, r.stdout[-1500:]
    if r.returncode == -14: return True, "timeout: the call does not return"
    return True, r.stdout[:3000]

def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--strict", action="store_true"); ap.add_argument("--nosamples", action="store_true"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--keep"); ap.add_argument("--time", type=float)
    a = ap.parse_args(); t0 = time.time(); prop = a.prop; tier = a.tier
    build_engine()
    if a.setup: return 0
    sp = spec.PROPS[prop]
    tmp = a.keep or tempfile.mkdtemp(prefix="sx_%s_" % prop)
    os.makedirs(tmp, exist_ok=True)
    log = lambda m: print(m, file=sys.stderr, flush=True)
    try:
        sxp, skipped = build_program(tmp, prop, tier, log)
        tb = time.time() - t0; log("build %.1fs" % tb)
        results = []; violations = []; problems = []
        ents = [e for e in sp["entries"] if (not a.only or e["name"] in a.only.split(",")) and (tier == "thorough" or not e.get("thorough_only"))]
        budget = 700 if tier == "quick" else 6*3600
        def run(e, workers):
            t = a.time or e.get("time", {}).get(tier) or (100 if tier == "quick" else 1800)
            out = os.path.join(tmp, e["name"]+".json")
            r = subprocess.run([ENG+"/sx", sxp, "--entry", e["name"], "--out", out, "--workers", str(workers), "--time", str(t), "--maxinst", str(e.get("maxinst", 60000000))], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
            try: j = json.load(open(out))
            except Exception: j = {"entry": e["name"], "verdict": "internal", "internal": "engine failed: rc=%d %s" % (r.returncode, r.stderr[-500:])}
            if r.stderr: log(r.stderr[-3000:])
            return e, j
        # light entries first in parallel, each with one or more workers
        heavy = [e for e in ents if e.get("heavy")]; light = [e for e in ents if not e.get("heavy")]
        todo = []
        with ThreadPoolExecutor(max(1, a.jobs // 2)) as ex:
            todo += list(ex.map(lambda e: run(e, 2), light))
        for e in heavy: todo.append(run(e, a.jobs))
        for e, j in todo:
            results.append(j)
            log("%-34s %-10s %6.1fs paths=%s queries=%s solver=%ss insts=%s %s" % (e["name"], j["verdict"], j.get("wall_s", 0), j.get("paths"), j.get("queries"), j.get("solver_s"), j.get("instructions"), (j.get("internal") or "")[:700]))
            if j["verdict"] == "violation":
                vt = j["violation"]; vf = os.path.join(tmp, e["name"]+".cex"); open(vf, "w").write(vt)
                try:
                    exe = build_native(tmp, prop, tier); ok, text = replay(exe, vf, e["name"])
                except RuntimeError as x: ok, text = False, str(x)
                j["replay_confirmed"] = ok; j["replay_output"] = text
                if ok:
                    rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, "%s_%s.txt" % (prop, e["name"]))
                    open(rp, "w").write("property %s\nharness %s (tier %s)\n%s\n--- native replay of the counterexample ---\n%s\n" % (prop, e["name"], tier, vt, text))
                    violations.append((e, vt, rp)); log(vt[:1800]); log("replay: " + text[:1200])
                else:
                    problems.append("%s: counterexample not confirmed by native replay" % e["name"]); log("UNCONFIRMED " + vt[:2500] + "\n" + text[:1500])
            elif j["verdict"] == "internal":
                problems.append("%s: %s" % (e["name"], j.get("internal", "")[:200]))
            if j["verdict"] in ("holds", "incomplete"):
                miss = [r for r in e.get("reach", [0]) if not j["reach"][r]]
                if miss: problems.append("%s: reachability witness %s not reached" % (e["name"], miss))
            if j["verdict"] == "incomplete": log("  incomplete: budget or solver limit")
        # validate the environment model: sampled symbolic paths must behave the same against the real libraries
        validated = 0; samples = []
        left = (800 if tier == "quick" else 1e9) - (time.time()-t0)
        pairs = [(j["entry"], t[:-1] if t.endswith(".") else t, n) for j in results for n, t in enumerate(j.get("samples", []))]
        if pairs and not violations and left > 200 and not a.nosamples and tier == "thorough":
            try:
                exe = build_native(tmp, prop, tier)
                def one(p):
                    vf = os.path.join(tmp, "%s_%d.smp" % (p[0], p[2])); open(vf, "w").write(p[1]); return p, replay(exe, vf, p[0])
                with ThreadPoolExecutor(8) as ex:
                    for p, (bad, text) in ex.map(one, pairs):
                        if bad: problems.append("%s: a path that holds symbolically fails natively: %s" % (p[0], text[:200])); (log("NATIVE MISMATCH %s\n%s\n%s" % (p[0], p[1], text[:800])) if len(problems)<3 else None)
                        else: validated += 1
            except RuntimeError as x: problems.append("native build for validation failed: " + str(x)[:200])
        for en, t, n in pairs:
            if n == len([q for q in pairs if q[0] == en])-1 and len(samples) < 40: samples.append({"entry": en, "variables": " ".join(l[4:].replace(" ", "=") for l in t.split("\n") if l.startswith("VAR "))[:400]})
        known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
        real = []
        for e, vt, rp in violations:
            m = re.search(r"^MSG (.*)$", vt, re.M).group(1)
            k = [k for k in known if k["entry"] == e["name"] and k["match"] in m]
            if k: print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
            else: real.append((e, m, rp))
        fns = sorted(set(f for j in results for f in j.get("functions", [])))
        dem = sh(["c++filt", "-p"] , input="\n".join(fns)).stdout.split("\n") if fns else []
        repo_fns = sorted(set(f for f in dem if f and not f.startswith(("std::", "__gnu", "bool std", "void std", "_", "(anonymous", "icu_", "utf8", "h_", "hx_", "u_", "operator"))))
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": {"states": sum(j.get("paths", 0) for j in results), "transitions": sum(j.get("instructions", 0) for j in results), "traces_validated_against_impl": validated, "samples": samples,
                           "meaning": "states: symbolic paths decided; transitions: IR instructions executed symbolically; traces: sampled paths replayed natively with the same outcome", "engine": "symbolic execution of clang -O1 LLVM IR of /repo, Z3 QF_BV/FPA",
                           "bounds": sp["bounds"][tier] if isinstance(sp["bounds"], dict) else sp["bounds"],
                           "functions_encoded": repo_fns, "functions_encoded_total": len(fns),
                           "queries": sum(j.get("queries", 0) for j in results), "sat": sum(j.get("sat", 0) for j in results), "unsat": sum(j.get("unsat", 0) for j in results), "unknown": sum(j.get("unknown", 0) for j in results),
                           "solver_s": round(sum(j.get("solver_s", 0) for j in results), 2), "paths": sum(j.get("paths", 0) for j in results), "build_s": round(tb, 1),
                           "entries": [{k: j.get(k) for k in ("entry", "verdict", "wall_s", "paths", "paths_done", "paths_exit", "paths_pruned", "queries", "sat", "unsat", "unknown", "solver_s", "max_query_s", "instructions", "asserts_solver", "asserts_trivial", "replay_confirmed")} | {"what": next((e.get("what", "") for e in sp["entries"] if e["name"] == j["entry"]), ""), "reach": [i for i, n in enumerate(j.get("reach", [])) if n]} for j in results],
                           "exhaustive_within_bounds": all(j["verdict"] == "holds" for j in results), "problems": problems, "sources_not_encodable": skipped,
                           "outside_the_bounds": sp.get("outside", "inputs larger than the stated bounds"), "what": {e["name"]: e["what"] for e in ents}},
              "assumptions": spec.COMMON_ASSUMPTIONS + sp.get("assumptions", []), "wall_s": round(time.time()-t0, 2),
              "violations": len(real)}
        ev["coverage"]["violation_details"] = [{"entry": e["name"], "message": m, "replay": rp} for e, m, rp in real]
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop+".json"), "w"), indent=1)
        for p in problems[:4]: print("INCONCLUSIVE: property=%s %s" % (prop, p.replace("\n"," ")), flush=True)
        for e, m, rp in real: print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        if real: return 1
        if problems and a.strict: return 2
        decided = [j for j in results if j["verdict"] in ("holds", "incomplete", "violation")]
        if not decided: return 2
        print("OK property=%s %d harnesses, %d paths, %d queries, %.1fs%s" % (prop, len(results), ev["coverage"]["paths"], ev["coverage"]["queries"], time.time()-t0, "" if ev["coverage"]["exhaustive_within_bounds"] else " (not exhaustive within the bounds)"))
        return 0
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
