#!/usr/bin/env python3
"""Lines of the library that the harnesses do not reach: coverage.py [CASES]"""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import driver as D
n = sys.argv[1] if len(sys.argv) > 1 else "400"
tmp = tempfile.mkdtemp()
D.VARIANTS["plain"]["fl"] = ["-g1", "-O0", "-fopenmp", "--coverage"]
D.VARIANTS["plain"]["link"] = ["-Wl,-u,__gcov_dump"]
files = ["p_cluster.cpp", "p_coll.cpp", "p_cpp.cpp", "shim.c", "p_dist.cpp", "p_graph.cpp", "p_life.cpp", "p_meta.cpp", "p_print.cpp", "p_tables.cpp", "p_tree.cpp", "p_util.cpp"]
pool = cf.ThreadPoolExecutor(8)
exe = D.build(tmp, "plain", files, pool)
env = D.run_env(tmp)
props = subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout.split()
print(props)
def go(p):
    for sc in ("1", "2"):
        subprocess.run([exe, p, "run", "1", "0", n, "100", os.path.join(tmp, p), sc, "5"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp)
list(pool.map(go, props))
d = os.path.join(tmp, "plain")
for s in D.lib_sources():
    o = os.path.join(d, s.replace("/", "_") + ".o")
    subprocess.run(["gcov", "-o", o, s], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    g = os.path.join(d, os.path.basename(s) + ".gcov")
    if os.path.exists(g):
        miss = [l.rstrip() for l in open(g, errors="replace") if l.lstrip().startswith("#####")]
        print("==", s, len(miss))
        for l in miss: print(l[:150])
        os.remove(g)
shutil.rmtree(tmp)
