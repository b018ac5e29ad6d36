#!/usr/bin/env python3
"""Try changes without making planted bugs of them: each trial is (name, property, [(path, old, new)...]) in the given files'
list T. Runs the property's quick check against a copy with the change.  usage: tools/trial.py FILE [NAME...]"""
import os, runpy, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = runpy.run_path(sys.argv[1])["T"]; names = sys.argv[2:]
for name, prop, edits in T:
    if names and name not in names: continue
    tmp = tempfile.mkdtemp(prefix="trial-")
    try:
        r = os.path.join(tmp, "repo"); bad = None
        subprocess.run(["git", "clone", "-q", "--shared", os.environ.get("VERIF_REPO", "/repo"), r], check=True)
        for p, old, new in edits:
            f = os.path.join(r, p); s = open(f).read()
            if s.count(old) != 1: bad = "%s: %d matches of %r" % (p, s.count(old), old[:60]); break
            open(f, "w").write(s.replace(old, new))
        if bad: print(name, prop, "EDIT", bad, flush=True); continue
        t = time.time()
        p = subprocess.run([sys.executable, "check.py", prop, "--tier", "quick"], cwd=VERIF, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        ok = p.returncode == 1 and "VIOLATION" in p.stdout
        print("%-24s %s %s exit=%d %.0fs" % (name, prop, "CAUGHT" if ok else "MISSED", p.returncode, time.time() - t), flush=True)
        if p.returncode not in (0, 1): print(p.stdout[-1500:])
    finally:
        shutil.rmtree(tmp)
