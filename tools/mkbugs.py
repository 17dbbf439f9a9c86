#!/usr/bin/env python3
"""mkbugs.py DEFFILE [id...]: writes seeded/<id>/ from a definition file, then confirms each bug:
patch applies, builds, stable tests pass, demo passes without and fails with it.  Uses /repo (restored afterwards)."""
import json, os, runpy, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

CPP = """#!/bin/bash
# exit 0: the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
%s -std=c++17 -g %s -I"$PWD/include" -I/usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 3
export TSAN_OPTIONS=halt_on_error=1
timeout 120 "$tmp/demo"
"""
PYD = """#!/bin/bash
# exit 0: the property holds
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
%s
"""

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

# run in a private mount namespace with a scratch copy bound over /repo
INNER = """mount --bind %(w)s/repo /repo && cd /repo && git apply %(o)s/patch.diff && bash /opt/vp/build.sh >%(w)s/build.log 2>&1; echo $? >%(w)s/build.rc
bash /opt/vp/test.sh %(w)s/o.json >%(w)s/test.log 2>&1
cp -r %(o)s %(w)s/demo; rm -f %(w)s/demo/*.diff %(w)s/demo/meta.json
bash %(w)s/demo/demo.sh >%(w)s/demo1.log 2>&1; echo $? >%(w)s/demo1.rc"""

def one(b):
    out = os.path.join(V, "seeded", b["id"]); os.makedirs(out, exist_ok=True)
    w = "/tmp/wk/" + b["id"]
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        sh("cp -a /repo %s/repo" % w)
        for f, old, new in b["edits"]:
            p = os.path.join(w, "repo", f); s = open(p).read()
            if s.count(old) != 1: return "BAD %s: %d matches of %r" % (b["id"], s.count(old), old[:200])
            open(p, "w").write(s.replace(old, new))
        open(out + "/patch.diff", "w").write(sh("git -C %s/repo diff" % w).stdout)
        sh("git -C %s/repo checkout -- ." % w)
        if "cpp" in b:
            open(out + "/demo.cpp", "w").write(b["cpp"])
            open(out + "/demo.sh", "w").write(CPP % (b.get("cxx", "g++"), b.get("flags", "-O1")))
        else:
            for n, t in b["files"].items(): open(os.path.join(out, n), "w").write(t)
            open(out + "/demo.sh", "w").write(PYD % b["sh"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # demo on the unchanged, already built tree first
        sh("cp -r %s %s/demo0" % (out, w))
        d0 = sh("bash %s/demo0/demo.sh" % w, cwd=R)
        r = sh("unshare -Urm bash -c '%s'" % (INNER % {"w": w, "o": out}))
        rd = lambda n: open(w + "/" + n).read().strip() if os.path.exists(w + "/" + n) else "?"
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try: missing = stable - set(json.load(open(w + "/o.json"))["passed"])
        except Exception as e: missing = {str(e)}
        ok = rd("build.rc") == "0" and not missing and rd("demo1.rc") not in ("0", "3", "?") and d0.returncode == 0
        m = ("OK  " if ok else "BAD ") + b["id"] + " build %s missing %s demo with %s without %d" % (rd("build.rc"), sorted(missing)[:4], rd("demo1.rc"), d0.returncode)
        if not ok: m += "\n" + r.stdout[-300:] + rd("build.log")[-800:] + rd("demo1.log")[-600:] + d0.stdout[-500:]
        return m
    finally:
        shutil.rmtree(w, ignore_errors=True)

def main():
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[2:]
    assert sh("git -C /repo status --porcelain").stdout == ""
    bl = sh("bash /opt/vp/build.sh"); assert bl.returncode == 0, bl.stdout[-500:]
    bugs = [b for b in runpy.run_path(sys.argv[1])["BUGS"] if not want or b["id"] in want]
    with ThreadPoolExecutor(3) as ex:
        for m in ex.map(one, bugs): print(m, flush=True)
main()
