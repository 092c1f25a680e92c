#!/usr/bin/env python3
"""Builds and validates the planted bugs described in seed files: every seed is applied to a scratch copy of the
repository, has to build and pass the stable tests there, and its demonstration has to fail with it and to succeed
without it. Kept seeds are written to seeded/<id>/.
usage: mkseed.py FILE.py [id...]    (FILE.py appends dicts to SEEDS)"""
import sys, os, subprocess, json, shutil, textwrap, runpy, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, 1 if not
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
g++ -std=c++17 -include cstdint -I"$PWD" %s "$here/demo.cpp" -o "$out/demo" || { rm -rf "$out"; exit 2; }
"$out/demo"; rc=$?
rm -rf "$out"
[ $rc = 0 ] && exit 0
exit 1
'''
HEAD = '''#include <cstdio>
#include <cstdlib>
#define REQUIRE(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build(s):
    id = s["id"]
    w = "/tmp/seedwork/" + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh("git -C %s archive HEAD | tar -x -C %s" % (REPO, w))
    d = os.path.join(here, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.cpp", "w") as f:
        f.write(HEAD + textwrap.dedent(s["demo"]).lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO % s.get("flags", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    try:
        r = sh("timeout 120 bash %s/demo.sh" % d, cwd=w)
        if r.returncode: return id, "demo fails on clean tree: " + r.stdout[-600:]
        sh("git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", cwd=w)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != 1: return id, "edit matches %d times: %r" % (t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
        r = sh("CC=gcc CXX=g++ CXXFLAGS='-include cstdint' meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Dtests=true && ninja -C _build -j2", cwd=w)
        if r.returncode: return id, "does not build: " + r.stdout[-800:]
        r = sh("for h in nytl/*.hpp; do g++ -std=c++17 -I. -include cstdint -include $h -fsyntax-only -x c++ /dev/null || exit 1; done", cwd=w)
        if r.returncode: return id, "header does not parse: " + r.stdout[-800:]
        # commands of compile database contain no /repo path; tests run from the build directory
        r = sh("python3 /opt/vp/run_units.py %s/_build 2>/dev/null > %s/res; python3 /opt/vp/results.py %s/res.json lines:%s/res" % (w, w, w, w))
        res = json.load(open(w + "/res.json"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = stable - set(res["passed"])
        if missing: return id, "breaks tests: %s" % sorted(missing)[:5]
        r = sh("timeout 120 bash %s/demo.sh" % d, cwd=w)
        if r.returncode != 1: return id, "demo does not fail (%d): %s" % (r.returncode, r.stdout[-600:])
        # our check against it
        r = sh("SX_REPO=%s SX_JOBS=4 timeout 600 python3 run.py %s" % (w, s["property"]), cwd=here)
        caught = r.returncode == 1 and "VIOLATION property=%s" % s["property"] in r.stdout
        return id, ("ok CAUGHT" if caught else "ok MISSED (%d) %s" % (r.returncode, r.stdout[-300:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
seeds = [s for s in seeds if not only or s["id"] in only]
with cf.ThreadPoolExecutor(4) as ex:
    for id, msg in ex.map(build, seeds):
        print(id, msg, flush=True)
        if not msg.startswith("ok"): shutil.rmtree(os.path.join(here, "seeded", id), ignore_errors=True)
