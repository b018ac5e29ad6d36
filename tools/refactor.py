#!/usr/bin/env python3
"""Applies the edits of tools/trials/refactor*.py, which keep the behaviour, to a copy of /repo, runs its tests and then every
check (or those named): each must stay quiet.  usage: tools/refactor.py FILE [Cxx...]"""
import os, runpy, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = runpy.run_path(sys.argv[1])["E1"]
tmp = tempfile.mkdtemp(prefix="refactor-")
try:
    r = os.path.join(tmp, "repo")
    subprocess.run(["git", "clone", "-q", "--shared", os.environ.get("VERIF_REPO", "/repo"), r], check=True)
    for p, old, new in E:
        f = os.path.join(r, p); s = open(f).read()
        if s.count(old) != 1: sys.exit("%s: %d matches of %r" % (p, s.count(old), old[:80]))
        open(f, "w").write(s.replace(old, new))
    for c in sys.argv[2:] or ["C%02d" % i for i in range(1, 32)]:
        t = time.time()
        p = subprocess.run([sys.executable, "check.py", c, "--tier", "quick"], cwd=VERIF, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        print(c, "quiet" if p.returncode == 0 else "ALARM exit=%d" % p.returncode, "%.0fs" % (time.time() - t), flush=True)
        if p.returncode: print(p.stdout[-2500:], flush=True)
finally:
    shutil.rmtree(tmp)
