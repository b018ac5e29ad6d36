#!/usr/bin/env python3
"""mutate_rest.py [--n N] [--seed S] [--what python|java|print]: random single-token changes of what tools/mutate.py leaves out: the
bindings and the lines that print. Each is judged by the quick check of its property. Prints the survivors."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--n", type=int, default=20); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--what", default="print")
a = ap.parse_args()
W = tempfile.mkdtemp(prefix="mutr-")
R = W + "/repo"
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
J = "modules/java/src/bw/co/roguesystems/"
FILES = {"python": ["modules/python/src/PyHdbscan.c"], "java": ["modules/java/src/Hdbscan.cpp", J + "Hdbscan.java", J + "ClusteringStats.java", J + "StatsValues.java", J + "DistanceValues.java"],
         "print": ["src/hdbscan.c", "src/undirected_graph.c", "src/distance.c", "src/outlier_score.c", "src/cluster.c", "src/constraint.c", "modules/utils/src/logger.c", "modules/collections/src/hashtable.c", "modules/collections/src/list.c", "modules/collections/src/set.c", "modules/collections/src/linkedlist.c"]}[a.what]
CHECKS = {"python": ["C25"], "java": ["C26"], "print": ["C24", "C31"]}[a.what]
OPS = [(r"(?<![<>-])<(?![<=>])(?!\w+>)", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\+ ?1\b", "+ 2"), (r"- ?1\b", "- 2"),
       (r"\b1\b(?!\.)", "0"), (r"\b0\b(?!\.)", "1"), (r"%f", "%.4f"), (r"%ld?\b", "%hd"), (r"%d", "%hhd"), (r"\\n", ""), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"), (r"\bPy_X?DECREF\(\w+\)", "(void)0"), (r"\bPy_INCREF\(\w+\)", "(void)0"),
       (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bskewness\b", "kurtosis"), (r"\bkurtosis\b", "skewness"), (r"\bcoreDistanceValues\b", "intraDistanceValues"), (r"[Ii]ntra", "core"), (r"->rows\b", "->cols"), (r"->cols\b", "->rows"), (r"(?<=[\w\])]) \* (?=[\w(])", " + "), (r"\bif ?\((?=.*\)\s*\{?\s*$)", "if (0 && "), (r"\+\+", "+=2")]
muts = []
for f in FILES:
    com = False
    for i, l in enumerate(open(os.path.join(R, f), errors="replace").read().split("\n")):
        s = l
        if com:
            if "*/" not in s: continue
            s = s.split("*/", 1)[1]; com = False
        if "/*" in s: com = "*/" not in s; continue
        if s.strip().startswith(("//", "#", "*", "import", "package")) or not s.strip(): continue
        if a.what == "print" and not f.endswith("logger.c") and not re.search(r"printf|logger_write|FILE|strlen", s): continue
        for p, r in OPS:
            for m in re.finditer(p, l): muts.append((f, i, l[:m.start()] + r + l[m.end():]))
        if re.match(r"^\s*[\w>\[\]().*-]+(\s*[+\-*/]?=[^=]|\(|\+\+|--)", l) and l.strip().endswith(";") and not re.match(r"^\s*(return|else|for|if|while)\b", l): muts.append((f, i, re.sub(r"\S.*", ";", l, count=1)))
random.Random(a.seed).shuffle(muts)
print(len(muts), "mutants possible", flush=True)
done = 0
for f, i, new in muts:
    if done >= a.n: break
    p = os.path.join(R, f); src = open(p).read(); lines = src.split("\n"); old = lines[i]; lines[i] = new
    open(p, "w").write("\n".join(lines))
    t = time.time(); res = "SURVIVED"
    for c in CHECKS:
        r = subprocess.run([sys.executable, "check.py", c, "--tier", "quick"], cwd=V, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1"))
        if r.returncode:
            res = "killed by " + c if "VIOLATION" in r.stdout else "exit %d (does not build?)" % r.returncode
            if "VIOLATION" not in r.stdout: res += " " + r.stdout[-200:].replace("\n", " ")
            break
    open(p, "w").write(src)
    done += 1
    print("%s %s:%d %.0fs\n   - %s\n   + %s" % (res, f, i + 1, time.time() - t, old.strip(), new.strip()), flush=True)
shutil.rmtree(W)
