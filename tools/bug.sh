#!/bin/bash
# bug.sh new|run ... : work on planted bugs in the scratch copy /tmp/rw (never in /repo)
#   bug.sh init            fresh scratch copy with its own build
#   bug.sh try DIR [check] apply DIR/patch.diff in /tmp/rw, build, run stable tests, demo, optionally the property's check; undo
set -u
W=/tmp/rw
export LANG=C.UTF-8 LC_ALL=C.UTF-8
init() { sed "s,/repo/tests,/tmp/rw/tests," /opt/vp/run_cases.py > /tmp/rw_cases.py; rm -rf /tmp/rw; git clone -q /repo $W; cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DENABLE_PYTHON_BINDINGS=OFF -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ >/dev/null && ninja -C $W/_build -j8 lttoolbox/all >/dev/null; }
tests() { mkdir -p $W/_build/tr; (cd $W/tests 2>/dev/null; TMPDIR=$W/_build/tr python3.12 /tmp/rw_cases.py $W/_build/lttoolbox $W/_build/cases.txt >/dev/null 2>&1); python3.12 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
r=[l.rstrip("\n") for l in open("$W/_build/cases.txt")]
bad=[l for l in r if not l.lower().startswith(("pass","ok","p ","+"))]
print("tests: %d lines, not passing: %s" % (len(r), bad[:5]))
P
}
case $1 in
 init) init;;
 try) D=$(realpath $2); git -C $W checkout -q -- . ; git -C $W apply $D/patch.diff || exit 9
   ninja -C $W/_build -j8 lttoolbox/all >/tmp/rw_build.log 2>&1 || { tail -5 /tmp/rw_build.log; git -C $W checkout -q -- .; exit 8; }
   tests
   (cd $W && timeout 300 bash $D/demo.sh >/tmp/rw_demo.log 2>&1); echo "demo with bug: $? (want nonzero)"
   P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
   if [ "${3:-}" = check ]; then (cd ${VDIR:-/verif} && SX_REPO=$W python3 check.py $P --nosamples 2>/tmp/rw_check.err | cut -c1-200; grep -v " holds " /tmp/rw_check.err | head -${LINES_:-6} | cut -c1-180); fi
   git -C $W checkout -q -- .
   if [ "${4:-}" != nobase ]; then ninja -C $W/_build -j8 lttoolbox/all >/dev/null 2>&1; (cd $W && timeout 300 bash $D/demo.sh >/tmp/rw_demo0.log 2>&1); echo "demo without: $? (want 0)"; fi;;
esac
