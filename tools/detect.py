#!/usr/bin/env python3
"""Run the quick check of each planted bug's property against a copy of /repo with the bug applied.

usage: tools/detect.py [--tier T] [--seed N] [ID...]     prints one line per bug: ID, property, exit status, first lines
"""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

def main():
    a = sys.argv[1:]; tier = "quick"; seed = "1"; ids = []; other = None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = a.pop(0)
        elif x == "--check": other = a.pop(0)
        else: ids.append(x)
    ids = ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        prop = other or json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="detect-")
        try:
            r = os.path.join(tmp, "repo")
            subprocess.run(["git", "clone", "-q", "--shared", REPO, r], check=True)
            p = subprocess.run(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
            if p.returncode:
                print(i, prop, "PATCH DOES NOT APPLY", flush=True); continue
            t = time.time()
            p = subprocess.run([sys.executable, "check.py", prop, "--tier", tier], cwd=VERIF, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=seed))
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            ok = p.returncode == 1 and v
            print("%-22s %s %s exit=%d %.0fs" % (i, prop, "CAUGHT" if ok else "MISSED", p.returncode, time.time() - t), flush=True)
            if p.returncode not in (0, 1) or "-v" in os.environ.get("DETECT", "") or (p.returncode and not v):
                print(p.stdout[-3000:])
        finally:
            shutil.rmtree(tmp)
main()
