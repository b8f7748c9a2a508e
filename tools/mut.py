#!/usr/bin/env python3
"""Mutation testing of the checks, in scratch copies only.
   mut.py gen COVDIR N SEED [FILEREGEX] > mutants.jsonl   (COVDIR/PXX/entry.cov as written with SX_COV)
   mut.py run mutants.jsonl OUT.jsonl WORKERS COVDIR BASETREE"""
import sys, os, re, json, random, subprocess, glob, shutil, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def cov(d):
    m = {}
    for f in glob.glob(d+"/P*/*.cov"):
        p = f.split("/")[-2]; e = os.path.basename(f)[:-4]
        for l in open(f):
            a = l.split()
            if len(a) == 3 and a[2] != "0" and "/lttoolbox/" in a[0]: m.setdefault((os.path.basename(a[0]), int(a[1])), {}).setdefault(p, set()).add(e)
    return m
OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<=", "<"), (r"(?<!>)>=", ">"), (r"(?<= )< ", "<= "), (r"(?<= )> ", ">= "), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"\+ 1\b", "+ 0"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"- 1\b", "- 0"), (r"!(?=[\w(])", ""), (r"\+\+", "--"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\+=", "="), (r"\bif ?\(", "if (!"), (r"if ?\((.*)\)( \{)?$", r"if (false && (\1))\2"), (r"if ?\((.*)\)( \{)?$", r"if (true || (\1))\2"), (r" \+ ", " - "), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\bbegin\(\)", "end()"), (r"&(?=\w+)(?<![&])(?!&)", ""), ]
def gen(d, n, seed, rx):
    c = cov(d); out = []; R = random.Random(seed)
    byf = {}
    for (f, l) in c: byf.setdefault(f, set()).add(l)
    for f, ls in sorted(byf.items()):
        p = os.path.join(os.environ.get("SX_REPO", "/repo"), "lttoolbox", f)
        if not os.path.exists(p) or not re.search(rx, f): continue
        L = open(p).read().split("\n")
        for l in sorted(ls):
            if l < 1 or l > len(L): continue
            s = L[l-1]
            if not s.strip() or s.strip().startswith(("//", "#", "*", "/*", "template", "using", "namespace")): continue
            for a, b in OPS:
                for m in re.finditer(a, s):
                    if s[:m.start()].count('"') % 2 or "<<" in s[max(0, m.start()-2):m.end()+1]: continue
                    t = s[:m.start()] + m.expand(b) + s[m.end():]
                    if t != s: out.append({"file": f, "line": l, "old": s, "new": t})
            st = s.strip()
            if st.endswith(";") and not re.match(r"(return|break|continue|else|case|}|auto |const |static |int |bool |size_t |UString |std::|unsigned |for|double |State |Transducer )", st): out.append({"file": f, "line": l, "old": s, "new": re.match(r"\s*", s).group(0)+";"})
    R.shuffle(out)
    # at most 2 per line
    k = {}; sel = []
    for m in out:
        q = (m["file"], m["line"])
        if k.get(q, 0) < 2: k[q] = k.get(q, 0)+1; sel.append(m)
    for m in sel[:n]: print(json.dumps(m))
def sh(c, **kw): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
ENVT = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
def worker(k, q, out, covd, base, lock):
    W = "/tmp/mw/r%d" % k; shutil.rmtree(W, ignore_errors=True); sh(["git", "clone", "-q", base, W])
    open("/tmp/mw/cases%d.py" % k, "w").write(open("/opt/vp/run_cases.py").read().replace("/repo/tests", W+"/tests").replace("TIMEOUT = 120", "TIMEOUT = 20"))
    sh(["cmake", "-S", W, "-B", W+"/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DBUILD_TESTING=ON", "-DENABLE_PYTHON_BINDINGS=OFF", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"]); sh(["ninja", "-C", W+"/_build", "-j4", "lttoolbox/all"])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = W+"/lttoolbox/"+m["file"]; L = open(f).read().split("\n")
        if L[m["line"]-1] != m["old"]: continue
        L[m["line"]-1] = m["new"]; open(f, "w").write("\n".join(L)); t0 = time.time(); r = dict(m)
        try:
            b = sh(["ninja", "-C", W+"/_build", "-j3", "lttoolbox/all"])
            if b.returncode: r["res"] = "nobuild"; continue
            os.makedirs(W+"/_build/tr", exist_ok=True)
            try: sh(["prlimit", "--as=3000000000", "--cpu=20", "python3.12", "/tmp/mw/cases%d.py" % k, W+"/_build/lttoolbox", W+"/_build/cases.txt"], env=dict(ENVT, TMPDIR=W+"/_build/tr"), timeout=200)
            except subprocess.TimeoutExpired: r["res"] = "tests"; continue
            finally: sh(["pkill", "-9", "-f", W+"/_build/lttoolbox/lt-"])
            c = open(W+"/_build/cases.txt").read()
            if "FAIL" in c or c.count("PASS") < 124: r["res"] = "tests"; continue
            r["res"] = "survived"; r["ran"] = []
            cc = covd.get((m["file"], m["line"]), {})
            import importlib; sys.path.insert(0, V); import spec
            for p in sorted(cc, key=lambda p: (len(cc[p]), p)):
                known = set(os.path.basename(x)[:-4] for x in glob.glob(covdir+"/"+p+"/*.cov"))
                es = [e["name"] for e in spec.PROPS[p]["entries"] if e["name"] in cc[p] or e["name"] not in known]
                tmp = "/tmp/mw/t%d" % k; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
                x = sh(["python3", V+"/tools/mutcheck.py", p, tmp, ",".join(es)], env=dict(os.environ, SX_REPO=W))
                r["ran"].append(p)
                if "CAUGHT" in x.stdout: r["res"] = "caught"; r["by"] = [p, x.stdout.strip().split("CAUGHT")[-1].strip()[:200]]; break
                if "INTERNAL" in x.stdout or "Traceback" in x.stdout: r.setdefault("notes", []).append(x.stdout[-300:])
                if "INCOMPLETE" in x.stdout: r.setdefault("inc", []).append(p)
        finally:
            sh(["git", "-C", W, "checkout", "-q", "--", "."]); r["s"] = round(time.time()-t0, 1)
            with lock:
                if "res" in r: open(out, "a").write(json.dumps(r)+"\n")
if sys.argv[1] == "gen": gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else ".")
else:
    covdir = sys.argv[5]; c = cov(covdir); q = queue.Queue()
    for l in open(sys.argv[2]): q.put(json.loads(l))
    lock = threading.Lock(); T = [threading.Thread(target=worker, args=(k, q, sys.argv[3], c, sys.argv[6], lock)) for k in range(int(sys.argv[4]))]
    [t.start() for t in T]; [t.join() for t in T]
