#!/usr/bin/env python3
"""plant.py FILE...: turns planted-bug descriptions into /verif/seeded/<id>/ and validates them.

Each FILE is Python: ID, PROP, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO = C source (or FILES = {name: text} with a demo.sh), SAN = bool.
Validation in /repo (restored afterwards): demo passes unpatched; patch applies, builds, stable tests pass, demo fails."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = """#!/bin/bash
# run in the repository after the build; exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
I="-I$R/_build -I$R/include -I$R/modules/utils/include -I$R/modules/collections/include"
F="-w -g -O1 %s"
for f in "$R"/src/*.c "$R"/modules/collections/src/*.c "$R"/modules/utils/src/*.c; do gcc $F $I -c "$f" -o "$T/$(basename "$f").o" & done
%swait
%s $F $I "$D/%s" "$T"/*.o -o "$T/demo" -lm || exit 3
cd "$T" && OMP_WAIT_POLICY=passive timeout 250 ./demo > out.txt 2>&1; rc=$?
tail -5 out.txt
exit $rc
"""
CPP = """for f in "$R"/src/*.cpp; do g++ -std=gnu++11 $F $I -c "$f" -o "$T/$(basename "$f").o" & done
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(f):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if sh("git -C /repo status --porcelain").stdout: raise SystemExit("/repo is not clean")
    base = {}
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
    if "FILES" in g:
        for n, t in g["FILES"].items(): open(os.path.join(d, n), "w").write(t)
    else:
        cpp = g.get("CPP", False)
        san = "-fsanitize=address" if g.get("SAN") else g.get("FLAGS", "-fopenmp")
        open(os.path.join(d, "demo.cpp" if cpp else "demo.c"), "w").write(g["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH % (san, CPP if cpp else "", "g++ -std=gnu++17" if cpp else "gcc", "demo.cpp" if cpp else "demo.c"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    try:
        for p, a, b in g["EDITS"]:
            t = open(os.path.join(R, p)).read()
            if t.count(a) != 1: raise SystemExit("%s: %d matches of %r" % (g["ID"], t.count(a), a))
            open(os.path.join(R, p), "w").write(t.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # the removed lines must stem from the base commit
        bl = []
        basec = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        for p in {e[0] for e in g["EDITS"]}:
            orig = sh("git -C /repo show %s:%s" % (basec, p)).stdout.split("\n")
            so = set(orig)
            cur = None
            for l in sh("git -C /repo diff -- %s" % p).stdout.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:] not in so: bl.append(l)
        b = sh("bash /opt/vp/build.sh"); bt = sh("bash /opt/vp/test.sh /tmp/plant.json")
        res = json.load(open("/tmp/plant.json"))
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    ok = r0.returncode == 0 and r1.returncode not in (0, 3, 124) and b.returncode == 0 and len(res["passed"]) >= 7
    print(g["ID"], "OK" if ok else "BAD", "demo %d -> %d" % (r0.returncode, r1.returncode), "build", b.returncode, "tests", len(res["passed"]), ("NOT ORIGINAL: %s" % bl) if bl else "", "| " + r1.stdout.strip().split("\n")[-1][:150] if ok else "\n" + r0.stdout[-600:] + "\n" + r1.stdout[-600:])
for f in sys.argv[1:]: main(f)
