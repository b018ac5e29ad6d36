#!/usr/bin/env python3
"""Undo each repair listed in known-findings.txt in a copy of /repo and run its property's quick check, which must report it.

usage: tools/reverts.py [--seed N] [--only COMMIT]     prints one line per repair"""
import os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
def main():
    seed = "1"; only = []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "--seed": seed = a.pop(0)
        elif x == "--only": only.append(a.pop(0))
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if not m or (only and m[2] not in only): continue
        prop, commit, what = m.groups()
        tmp = tempfile.mkdtemp(prefix="revert-")
        try:
            r = os.path.join(tmp, "repo")
            subprocess.run(["git", "clone", "-q", "--shared", REPO, r], check=True)
            p = subprocess.run(["git", "-C", r, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", commit], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode:
                print(commit, prop, "CONFLICT", what, flush=True); continue
            t = time.time()
            p = subprocess.run([sys.executable, "check.py", prop, "--tier", "quick"], cwd=VERIF, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=seed))
            ok = p.returncode == 1 and "VIOLATION" in p.stdout
            print(commit, prop, "CAUGHT" if ok else "MISSED", "exit=%d %.0fs" % (p.returncode, time.time() - t), what, flush=True)
            if not ok: print(p.stdout[-600:], flush=True)
        finally:
            shutil.rmtree(tmp)
main()
