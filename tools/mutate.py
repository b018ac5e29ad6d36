#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--files SUBSTR] [--out FILE]: mutation testing of the checks. Small changes of the library's sources,
one at a time, in a scratch copy; every property runs a short search against each. Prints the survivors."""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
ap = argparse.ArgumentParser()
ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files", default=""); ap.add_argument("--out", default="/tmp/mutants.jsonl")
ap.add_argument("--cases", type=int, default=700)
a = ap.parse_args()
W = tempfile.mkdtemp(prefix="mut-")
R = W + "/repo"
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
os.environ["VERIF_REPO"] = R
import driver as D
HF = ["p_dist.cpp", "p_tree.cpp", "p_life.cpp", "p_meta.cpp", "p_tables.cpp", "p_cpp.cpp", "shim.c", "p_coll.cpp", "p_util.cpp", "p_graph.cpp", "p_print.cpp", "p_cluster.cpp", "p_omp.cpp"]
PROPS = ["C%02d" % i for i in range(1, 25) if i != 11] + ["C28", "C11", "C29", "C30"]
CASES = {"C21": 8, "C22": 15, "C17": 4, "C18": 4, "C19": 4, "C20": 4, "C12": 4, "C14": 4, "C23": 3, "C28": 4, "C15": 3, "C24": 2}
pool = cf.ThreadPoolExecutor(8)
exe = {"asan": D.build(W, "asan", HF, pool), "omp": D.build(W, "omp", ["p_omp.cpp"], pool)}
def body(path):
    """(line number, text) of lines that hold code"""
    out, com = [], False
    for i, l in enumerate(open(path, errors="replace").read().split("\n")):
        s = l
        if com:
            if "*/" not in s: continue
            s = s.split("*/", 1)[1]; com = False
        s = re.sub(r"/\*.*?\*/", "", s)
        if "/*" in s: s = s.split("/*")[0]; com = True
        s2 = s.split("//")[0]
        if not s2.strip() or s2.strip().startswith("#") and "omp" not in s2: continue
        if re.search(r"printf|logger_write|assert|^\s*(static|extern|typedef)\b", s2): continue
        out.append((i, l))
    return out
OPS = [(r"<(?![<=])(?!\w+>)", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<![+\w]) ?\+ ?(?![+=])", " - "), (r"(?<=[\w\])]) ?- ?(?=[\w(])(?!>)", " + "), (r"\+ ?1\b", "+ 2"), (r"- ?1\b", "- 2"), (r"\b1\b(?!\.)", "0"), (r"\b0\b(?!\.)", "1"), (r"\b2\b", "3"), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"),
       (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"\+=", "="), (r"\+\+", "--"), (r"\bif ?\((?=.*\)\s*\{?\s*$)", "if (1 || "), (r"\bif ?\((?=.*\)\s*\{?\s*$)", "if (0 && "), (r"(?<=[\w\])]) \* (?=[\w(])", " / "), (r"(?<=[\w\])]) / (?=[\w(])", " * "),
       (r"D_MAX", "D_MIN"), (r"NULL", "(void *)0 + 1") if False else (r"D_MIN", "D_MAX"), (r"private ?\([^)]*\)", ""), (r"#pragma omp critical", "")]
muts = []
for f in D.lib_sources():
    if a.files and a.files not in f: continue
    if f.endswith("logger.c"): continue
    for i, l in body(f):
        for k, (p, r) in enumerate(OPS):
            if l.strip().startswith("#") and k < len(OPS) - 2: continue
            for m in re.finditer(p, l):
                n = l[:m.start()] + r + l[m.end():]
                if n != l: muts.append((f, i, n))
        if re.match(r"^\s*[\w>\[\]().*-]+(\s*[+\-*/]?=[^=]|\(|\+\+|--)", l) and l.strip().endswith(";") and not re.match(r"^\s*(return|else|for|if|while)\b", l):
            muts.append((f, i, re.sub(r"\S.*", ";", l, count=1)))
random.Random(a.seed).shuffle(muts)
print(len(muts), "mutants possible", flush=True)
muts = muts[:a.n]
e = D.run_env(W)
def run_prop(p):
    v = "omp" if p == "C11" else "asan"
    ex = D_EXE[v]
    if not ex: return None
    sc = os.path.join(W, "s-" + p); os.makedirs(sc, exist_ok=True)
    out = os.path.join(W, "o-%s.json" % p)
    if os.path.exists(out): os.unlink(out)
    n = a.cases * CASES.get(p, 1)
    pr = subprocess.run(["timeout", "100", ex, p, "run", str(a.seed), "0", str(n), "30", out, "1", "1"], env=dict(e, PBT_SCRATCH=sc), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=sc)
    try: r = json.load(open(out))
    except Exception: return "crash"
    return r["failure"]["message"][:200] if r["failure"] else None
res = open(a.out, "a")
t0 = time.time(); killed = surv = broken = 0
for n, (f, i, new) in enumerate(muts):
    src = open(f).read(); lines = src.split("\n"); old = lines[i]
    lines[i] = new
    open(f, "w").write("\n".join(lines))
    D_EXE = {}
    try:
        try:
            for v in ("asan", "omp"):
                vv = D.VARIANTS[v]; d = os.path.join(W, v)
                o = os.path.join(d, f.replace("/", "_") + ".o")
                shutil.copy(o, o + ".bak")
                c = f.endswith(".c")
                cmd = [vv["cc"] if c else vv["cxx"]] + ([] if c else ["-std=gnu++11"]) + vv["fl"] + vv.get("lib", []) + ["-w", "-I" + d] + D.INC + ["-I" + D.H, "-c", f, "-o", o]
                D.compile_one(cmd)
                objs = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith(".o")]
                objs.sort(key=lambda x: "harness" in x)
                D.sh([vv["cxx"]] + vv["fl"] + vv.get("link", []) + D.WRAP + objs + ["-lm", "-lpthread", "-o", d + "/mut"])
                D_EXE[v] = d + "/mut"
        except D.Broken:
            broken += 1
            continue
        got = dict(zip(PROPS, pool.map(run_prop, PROPS)))
        hit = [p for p in PROPS if got[p]]
        if hit: killed += 1
        else:
            surv += 1
            print("SURVIVED %s:%d\n   - %s\n   + %s" % (f.replace(R, ""), i + 1, old.strip(), new.strip()), flush=True)
        res.write(json.dumps(dict(file=f.replace(R + "/", ""), line=i + 1, old=old, new=new, hit=hit)) + "\n"); res.flush()
    finally:
        open(f, "w").write(src)
        for v in ("asan", "omp"):
            o = os.path.join(W, v, f.replace("/", "_") + ".o")
            if os.path.exists(o + ".bak"): os.replace(o + ".bak", o)
    if n % 20 == 19: print("%d: killed %d survived %d not compiled %d, %.0f s" % (n + 1, killed, surv, broken, time.time() - t0), flush=True)
print("killed %d survived %d not compiled %d, %.0f s" % (killed, surv, broken, time.time() - t0))
shutil.rmtree(W, ignore_errors=True)
