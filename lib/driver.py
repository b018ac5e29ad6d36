import argparse, concurrent.futures as cf, glob, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
NCPU = 8

class Broken(Exception):
    pass

INC = ["-I%s/include" % REPO, "-I%s/modules/utils/include" % REPO, "-I%s/modules/collections/include" % REPO]

def write_config(d, label="unsigned int", dist="double", index="unsigned int", debug=False):
    """config.h from the repository's template, as CMake would write it"""
    t = open(os.path.join(REPO, "config.h.in")).read()
    mm = ("DBL_MAX", "DBL_MIN") if dist == "double" else ("FLT_MAX", "FLT_MIN")
    for k, v in (("LABEL_TYPE", label), ("DISTANCE_TYPE", dist), ("INDEX_TYPE", index), ("D_MAX", mm[0]), ("D_MIN", mm[1]),
                 ("HDBSCAN_MAJOR_VERSION", "5"), ("HDBSCAN_MINOR_VERSION", "1"), ("HDBSCAN_PATCH_VERSION", "2"), ("HDBSCAN_VERSION", "5.1.2")):
        t = t.replace("@%s@" % k, v)
    t = t.replace("#cmakedefine DEBUG", "#define DEBUG" if debug else "/* #undef DEBUG */")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "config.h"), "w").write(t)

def lib_sources():
    out = []
    for p in ("src", "modules/collections/src", "modules/utils/src"):
        out += sorted(glob.glob(os.path.join(REPO, p, "*.c"))) + sorted(glob.glob(os.path.join(REPO, p, "*.cpp")))
    return out

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise Broken("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout

# no alignment check: array lists hold elements of any size; no nonnull-attribute: memcpy(p, NULL, 0) is harmless;
# no bounds check: gcc 13 crashes on it with OpenMP and variable length arrays (AddressSanitizer sees the overruns)
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,alignment,vptr,bounds", "-fno-sanitize-recover=all"]
VARIANTS = {
    "asan": dict(cc="gcc", cxx="g++", fl=["-g1", "-O1", "-fno-omit-frame-pointer", "-fopenmp"] + SAN),
    "plain": dict(cc="gcc", cxx="g++", fl=["-g1", "-O2", "-fopenmp"]),
    "fill": dict(cc="gcc", cxx="g++", fl=["-g1", "-O1", "-fopenmp", "-DVH_FILL"]),
    "seq": dict(cc="gcc", cxx="g++", fl=["-g1", "-O1"]),
    # the library runs on harness/omp_sim.cpp in place of libgomp and libtsan: schedules are chosen by the harness
    "omp": dict(cc="gcc", cxx="g++", fl=["-g1", "-O1", "-DOMP_SIM", "-U_FORTIFY_SOURCE"], lib=["-fopenmp", "-fsanitize=thread", "-fno-builtin"], files=["omp_sim.cpp"], optional=True,
                link=["-rdynamic", "-ldl"] + ["-Wl,--wrap=" + x for x in ("memcpy", "memmove", "memset", "memcmp", "qsort", "localtime", "gmtime", "ctime", "asctime", "strtok",
                    "strlen", "strcpy", "strncpy", "strcat", "strncat", "strcmp", "strncmp", "vsnprintf", "vsprintf", "snprintf", "sprintf", "strftime")]),
    "fuzz": dict(cc="clang", cxx="clang++", fl=["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link", "-DPBT_FUZZ", "-Wno-everything"] + SAN, link=["-fsanitize=fuzzer"]),
}
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]

def compile_one(cmd):
    try:
        return sh(cmd)
    except Broken as e:
        if "internal compiler error" in str(e) and "-fsanitize=address,undefined" in cmd:
            return sh(["-fsanitize=address" if x == "-fsanitize=address,undefined" else x for x in cmd if not x.startswith("-fno-sanitize=")])
        raise

def build(tmp, variant, harness_files, pool, extra_lib=None):
    """Returns a future-resolved path of the linked harness program."""
    v = VARIANTS[variant]
    d = os.path.join(tmp, variant)
    os.makedirs(d, exist_ok=True)
    write_config(d)
    jobs, objs = [], []
    def comp(src, std, more=()):
        c = src.endswith(".c")
        o = os.path.join(d, src.replace("/", "_") + ".o")
        objs.append(o)
        cmd = [v["cc"] if c else v["cxx"]] + ([] if c else ["-std=" + std]) + v["fl"] + list(more) + ["-w", "-I" + d] + INC + ["-I" + H, "-c", src, "-o", o]
        jobs.append(pool.submit(compile_one, cmd))
    for s in lib_sources():
        comp(s, "gnu++11", v.get("lib", []))
    for s in ["engine.cpp", "alloc_wrap.c"] + v.get("files", []) + harness_files:
        comp(os.path.join(H, s), "gnu++17")
    for j in jobs:
        j.result()
    exe = os.path.join(d, "pbt")
    try:
        sh([v["cxx"]] + v["fl"] + v.get("link", []) + WRAP + objs + ["-lm", "-lpthread", "-o", exe])
    except Broken as e:
        if v.get("optional") and "undefined reference" in str(e): # the library uses a run-time function that the stand-in lacks
            return None
        raise
    return exe

def run_env(scratch):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:symbolize=1",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", PBT_SCRATCH=scratch, MALLOC_PERTURB_="90",
             LC_ALL="C", TZ="UTC")
    e.pop("OMP_NUM_THREADS", None)
    return e

class Check:
    """Accumulates the outcome of one run of a check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.hashes = set()
        self.classes = {}
        self.samples = []
        self.failures = []   # confirmed
        self.notes = []
        self.known = []
        self.parts = {}
        self.extra = {}

    def add(self, part, res, hashes):
        self.evaluations += res["cases"]
        self.hashes.update(hashes)
        p = self.parts.setdefault(part, {"cases": 0, "nontrivial": 0})
        p["cases"] += res["cases"]
        p["nontrivial"] += res["nontrivial"]
        for k, n in res["classes"].items():
            k2 = k if part == self.prop else part + " " + k
            self.classes[k2] = self.classes.get(k2, 0) + n
        self.samples += [s for s in res["samples"] if s][:2]

    def finish(self, rule, level="exploration", assumptions=None):
        rep = None
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.failures:
            rep = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            json.dump(self.failures[0], open(rep, "w"), indent=1)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.hashes), "rule": rule,
                           "samples": self.samples[:12], "classes": dict(sorted(self.classes.items())), "parts": self.parts},
              "assumptions": assumptions or [], "wall_s": round(time.time() - self.t0, 2), "violations": len(self.failures)}
        ev["coverage"].update(self.extra)
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for n in self.notes:
            print("note:", n)
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (self.prop, self.tier, self.evaluations, len(self.hashes), time.time() - self.t0))
        if self.failures:
            f = self.failures[0]
            print("violation:", f.get("message", "")[:3000])
            print("case:", str(f.get("desc", ""))[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        return 0

def read_hashes(f):
    try:
        b = open(f, "rb").read()
    except OSError:
        return []
    return struct.unpack("<%dQ" % (len(b) // 8), b)

def run_part(ck, exe, tmp, jobs, seed, tier):
    """jobs: list of (prop, worker, cases, scale, wall limit, variant); all run in parallel"""
    env = run_env(tmp)
    procs = []
    for (prop, w, cases, scale, wall, variant) in jobs:
        out = os.path.join(tmp, "out-%s-%s-%d.json" % (prop, variant, w))
        cmd = [exe[variant], prop, "run", str(seed), str(w), str(cases), str(wall), out, str(scale), "25"]
        log = open(out + ".log", "w")
        procs.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=tmp, start_new_session=True), out, prop, variant, scale))
    for (p, out, prop, variant, scale) in procs:
        try:
            p.wait(timeout=1500)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise Broken("worker did not end: " + out)
        if p.returncode != 0 or not os.path.exists(out):
            raise Broken("worker failed (%s): %s" % (p.returncode, open(out + ".log", errors="replace").read()[-2000:]))
        res = json.load(open(out))
        ck.add(prop, res, read_hashes(out + ".hashes"))
        f = res["failure"]
        if f:
            f.update(property=ck.prop, part=prop, variant=variant, scale=scale)
            if f["confirmed"] >= 3:
                ck.failures.append(f)
            else:
                ck.notes.append("a failing case did not fail again (%d of 25): %s" % (f["confirmed"], f["first_message"][:400]))

def fuzz_campaign(ck, tmp, exe, pbt_exe, prop, seed, seconds, njobs):
    """coverage-guided search over the same choice sequences (libFuzzer); a crash is turned into a choice list"""
    env = run_env(tmp)
    env["PBT_PROP"] = prop
    procs = []
    for k in range(njobs):
        cd = os.path.join(tmp, "corpus-%s-%d" % (prop, k))
        os.makedirs(cd)
        log = open(os.path.join(cd + ".log"), "w")
        procs.append((subprocess.Popen([exe, cd, "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=50", "-timeout=60", "-rss_limit_mb=3000",
                                        "-print_final_stats=1", "-artifact_prefix=%s/crash-" % cd], env=env, stdout=log, stderr=log, cwd=tmp, start_new_session=True), cd))
    runs = 0
    for p, cd in procs:
        try:
            p.wait(timeout=seconds + 200)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        for line in open(cd + ".log", errors="replace"):
            if line.startswith("stat::number_of_executed_units:"):
                runs += int(line.split()[-1])
        for cr in sorted(glob.glob(cd + "/crash-*")):
            if ck.failures:
                break
            dump = cr + ".choices"
            e2 = dict(env, PBT_DUMP=dump)
            try:
                subprocess.run([exe, cr], env=e2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            except subprocess.TimeoutExpired:
                pass
            if not os.path.exists(dump):
                # crashed before the choices were written: replay the bytes in the sanitizer build instead
                ck.notes.append("libFuzzer artifact without choices")
                dump = None
            if dump:
                out = cr + ".shrunk"
                r = subprocess.run([pbt_exe, prop, "shrink", dump, "1", "40", out], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
                if r.returncode == 1 and os.path.exists(out):
                    conf = sum(subprocess.run([pbt_exe, prop, "replay", out, "1"], env=env, stdout=subprocess.DEVNULL).returncode == 1 for _ in range(3))
                    if conf == 3:
                        lines = r.stdout.split("\n")
                        ck.failures.append(dict(property=ck.prop, part=prop, variant="asan", scale=1, confirmed=3, message=lines[1], desc="\n".join(lines[2:]),
                                                choices=[int(x) for x in open(out).read().split()]))
                        continue
                ck.notes.append("libFuzzer artifact did not fail again in the sanitizer build")
    ck.extra["fuzz_runs_" + prop] = runs
    ck.evaluations += runs

def replay(prop, f, spec):
    r = json.load(open(f))
    r["file"] = f
    tmp = tempfile.mkdtemp(prefix="vh-")
    try:
        if "custom" in spec and r.get("custom"):
            return spec["custom_replay"](r, tmp)
        if spec.get("prepare"):
            spec["prepare"](tmp)
        with cf.ThreadPoolExecutor(NCPU) as pool:
            exe = build(tmp, r["variant"], spec["files"], pool)
        env = run_env(tmp)
        if "window" in r:
            cmd = [exe, r["part"], "range", str(r["seed"]), str(r["worker"]), str(r["window"][0]), str(r["window"][1]), str(r["scale"])]
        else:
            cf_ = os.path.join(tmp, "choices")
            open(cf_, "w").write("\n".join(map(str, r["choices"])))
            cmd = [exe, r["part"], "replay", cf_, str(r["scale"])]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        print(p.stdout)
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1 if p.returncode == 1 else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main(argv):
    import specs
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a = ap.parse_args(argv)
    spec = specs.SPECS[a.prop]
    if a.replay:
        sys.exit(replay(a.prop, a.replay, spec))
    ck = Check(a.prop, a.tier, a.seed)
    tmp = tempfile.mkdtemp(prefix="vh-")
    def term(*_):
        shutil.rmtree(tmp, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, term)
    try:
        if spec.get("files"):
            generic(ck, spec, tmp, a)
        if spec.get("custom") and not ck.failures:
            spec["custom"](ck, tmp, a)
        rc = ck.finish(spec["rule"], assumptions=spec.get("assumptions"))
    except Broken as e:
        print("check error:", e)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def generic(ck, spec, tmp, a):
    parts = spec["parts"]
    variants = sorted({p["variant"] for p in parts})
    thorough = a.tier == "thorough"
    fuzz = thorough and spec.get("fuzz")
    if fuzz:
        variants = sorted(set(variants) | {"fuzz", "asan"})
    with cf.ThreadPoolExecutor(NCPU) as pool:
        tp = cf.ThreadPoolExecutor(4)
        exe = dict(zip(variants, tp.map(lambda v: build(tmp, v, spec["files"], pool), variants)))
        tp.shutdown()
    for v in variants:
        if exe[v] is None:
            ck.notes.append("the '%s' build could not be linked; its part of the search did not run" % v)
            parts = [p for p in parts if p["variant"] != v]
    if spec.get("prepare"):
        spec["prepare"](tmp)
    t1 = time.time()
    # group 0 runs first, then group 1, ...
    for g in sorted({p.get("group", 0) for p in parts}):
        jobs, w = [], 0
        for p in parts:
            if p.get("group", 0) != g:
                continue
            n = p["cases"] * (p.get("thorough_factor", 12) if thorough else 1)
            for k in range(p["workers"]):
                scale = p.get("scale", 1)
                if thorough and k % 2 == 1:
                    scale = max(scale, 2)
                jobs.append((p.get("prop", ck.prop), w + 100 * (scale - 1), n, scale, 500 if thorough else 150, p["variant"]))
                w += 1
        run_part(ck, exe, tmp, jobs, a.seed, a.tier)
        if ck.failures:
            return
    ck.extra["search_s"] = round(time.time() - t1, 1)
    if fuzz:
        for prop in fuzz:
            fuzz_campaign(ck, tmp, exe["fuzz"], exe["asan"], prop, a.seed, spec.get("fuzz_s", 120) // len(fuzz), NCPU)
