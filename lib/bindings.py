"""Checks that drive the language modules and other builds of the library (C25, C26, C27)."""
import concurrent.futures as cf, glob, json, os, shutil, signal, subprocess, sys, time
import driver as D

VT = "python3-vt"

def compile_lib(d, flags, config=None, extra=(), cc="gcc"):
    """objects of the library and of extra sources"""
    os.makedirs(d, exist_ok=True)
    D.write_config(d, **(config or {}))
    objs, jobs = [], []
    with cf.ThreadPoolExecutor(D.NCPU) as pool:
        for s in [x for x in D.lib_sources() if x.endswith(".c")] + list(extra):
            o = os.path.join(d, s.replace("/", "_") + ".o")
            objs.append(o)
            c = cc if s.endswith(".c") else {"gcc": "g++", "clang": "clang++"}[cc]
            jobs.append(pool.submit(D.sh, [c, "-w", "-fPIC"] + flags + ["-I" + d] + D.INC + ["-c", s, "-o", o]))
        for j in jobs:
            j.result()
    return objs

def link_so(objs, out, flags=()):
    D.sh(["gcc", "-shared", "-Wl,-Bsymbolic"] + list(flags) + objs + ["-lm", "-o", out])
    return out

PLAIN = ["-O1", "-g1", "-fopenmp"]

def oracle_lib(tmp, name="oracle", config=None, flags=PLAIN):
    objs = compile_lib(os.path.join(tmp, name), flags, config, [os.path.join(D.H, "oracle_shim.c")])
    return link_so(objs, os.path.join(tmp, name, "lib%s.so" % name), ["-fopenmp"])

def scratch(tmp):
    s = os.path.join(tmp, "scratch")
    os.makedirs(s, exist_ok=True)
    return s

def search(ck, part, procs, limit):
    """procs: (Popen, out file, log file); adds up their reports"""
    for p, out, log in procs:
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise D.Broken("worker did not end: " + out)
        if p.returncode or not os.path.exists(out):
            raise D.Broken("worker failed (%s): %s" % (p.returncode, open(log, errors="replace").read()[-3000:]))
        res = json.load(open(out))
        ck.add(part, res, res["hashes"])
        f = res["failure"]
        if f:
            f.update(property=ck.prop, custom=True)
            if f["confirmed"] >= 3:
                ck.failures.append(f)
            else:
                ck.notes.append("a failing case did not fail again (%d of 5): %s" % (f["confirmed"], f["message"][:400]))
    ck.failures.sort(key=lambda f: len(f["desc"]))

# ---- C25
def python_parts(tmp):
    info = json.loads(D.sh([VT, "-c", "import sysconfig,numpy,json;print(json.dumps([sysconfig.get_path('include'),numpy.get_include(),sysconfig.get_config_var('EXT_SUFFIX')]))"]))
    src = sorted(glob.glob(os.path.join(D.REPO, "modules/python/src/*.c")))
    san = ["-fsanitize=address"]
    ed = os.path.join(tmp, "ext")
    objs = compile_lib(ed, PLAIN + ["-fno-omit-frame-pointer"] + san + ["-I" + info[0], "-I" + info[1]], None, src + [os.path.join(D.H, "alloc_wrap.c")])
    link_so(objs, os.path.join(ed, "PyHdbscan" + info[2]), ["-fopenmp"] + san + D.WRAP)
    ora = oracle_lib(tmp)
    env = D.run_env(scratch(tmp))
    env["LD_PRELOAD"] = D.sh(["gcc", "-print-file-name=libasan.so"]).strip()
    env["PYTHONMALLOC"] = "malloc"
    env["ASAN_OPTIONS"] += ":verify_asan_link_order=0:handle_segv=1"
    env["OMP_NUM_THREADS"] = "2"; env["OMP_WAIT_POLICY"] = "passive"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return [VT, os.path.join(D.H, "py_worker.py"), ed, ora], env

def hyp_search(ck, tmp, a, cmd, env, counts):
    th = a.tier == "thorough"
    procs = []
    for w in range(D.NCPU):
        out = os.path.join(tmp, "out-%d.json" % w)
        log = open(out + ".log", "w")
        procs.append((subprocess.Popen(cmd + ["search", str(a.seed * 1000 + w), str(counts[th]), str(500 if th else 120), out], env=env, stdout=log, stderr=log, cwd=tmp, start_new_session=True), out, out + ".log"))
    search(ck, ck.prop, procs, 840)

def hyp_replay(r, tmp, cmd, env):
    f = os.path.join(tmp, "program.json")
    json.dump(r["program"], open(f, "w"))
    p = subprocess.run(cmd + ["replay", f], env=env, stdout=subprocess.PIPE, text=True, errors="replace", cwd=tmp)
    print(p.stdout)
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (r["property"], r["file"]))
    return 1 if p.returncode == 1 else 0

def c25(ck, tmp, a):
    cmd, env = python_parts(tmp)
    load = [subprocess.run([VT, "-c", "import sys, numpy; sys.path.insert(0, sys.argv[1]); print('numpy', flush=True); import PyHdbscan; PyHdbscan.PyHdbscan(3)", cmd[2]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=tmp) for _ in range(3)]
    if all(p.returncode and "numpy" in p.stdout for p in load): # it builds, but cannot be imported
        ck.failures.append({"message": "the module cannot be used: " + load[0].stdout[-600:], "desc": "import PyHdbscan; PyHdbscan.PyHdbscan(3)", "program": [], "confirmed": 3, "property": ck.prop, "custom": True})
        return
    hyp_search(ck, tmp, a, cmd, env, (1500, 30000))

def c25_replay(r, tmp):
    return hyp_replay(r, tmp, *python_parts(tmp))

# ---- C26
JDK = "/usr/lib/jvm/java-17-openjdk-amd64"

def java_parts(tmp):
    cd = os.path.join(tmp, "classes")
    jh = os.path.join(tmp, "jni")
    for d in (cd, jh):
        os.makedirs(d)
    src = os.path.join(D.REPO, "modules/java/src")
    D.sh(["javac", "-nowarn", "-d", cd, "-h", jh, os.path.join(src, "bw/co/roguesystems/Hdbscan.java"), os.path.join(D.H, "java/Driver.java")])
    inc = ["-I" + os.path.join(JDK, "include"), "-I" + os.path.join(JDK, "include/linux"), "-I" + src]
    extra = sorted(glob.glob(os.path.join(src, "*.cpp"))) + [s for s in D.lib_sources() if s.endswith(".cpp")] + [os.path.join(D.H, "java_live.cpp"), os.path.join(D.H, "alloc_wrap.c")]
    objs = compile_lib(os.path.join(tmp, "jnilib"), PLAIN + inc, None, extra)
    D.sh(["g++", "-shared", "-Wl,-Bsymbolic", "-fopenmp"] + D.WRAP + objs + ["-lm", "-o", os.path.join(cd, "libhdbscan_java.so")])
    env = D.run_env(scratch(tmp))
    env["OMP_NUM_THREADS"] = "2"; env["OMP_WAIT_POLICY"] = "passive"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return [VT, os.path.join(D.H, "java_worker.py"), cd, oracle_lib(tmp), os.path.join(JDK, "bin/java")], env

def c26(ck, tmp, a):
    hyp_search(ck, tmp, a, *java_parts(tmp), (2000, 40000))

def c26_replay(r, tmp):
    return hyp_replay(r, tmp, *java_parts(tmp))

# ---- C27, C31
TYPES = ["unsigned int", "unsigned short", "unsigned long"]
SAN = ["-O1", "-g1", "-fopenmp", "-fno-omit-frame-pointer", "-fsanitize=address"]

def build_libs(d, todo):
    """shared libraries (directory, name, label, index and distance type, debug, flags) with their C interface for the check"""
    with cf.ThreadPoolExecutor(D.NCPU) as pool:
        links = []
        for sub, name, l, i, f, debug, flags in todo:
            c = os.path.join(d, sub, name)
            os.makedirs(c)
            D.write_config(c, TYPES[l], ["double", "float"][f], TYPES[i], debug)
            objs, jobs = [], []
            for s in D.lib_sources() + [os.path.join(D.H, "oracle_shim.c"), os.path.join(D.H, "cpp_shim.cpp")]:
                o = os.path.join(c, s.replace("/", "_") + ".o")
                objs.append(o)
                jobs.append(pool.submit(D.sh, (["gcc"] if s.endswith(".c") else ["g++", "-std=gnu++11"]) + ["-w", "-fPIC"] + flags + ["-I" + c] + D.INC + ["-c", s, "-o", o]))
            links.append((objs, jobs, os.path.join(d, sub, name + ".so"), flags[2:]))
        for objs, jobs, so, fl in links:
            for j in jobs:
                j.result()
            link_so(objs, so, fl + ["-lstdc++"])
    os.environ["PBT_LIBS"] = d

def conf_libs(tmp):
    """one shared library per supported combination of types; $PBT_LIBS with AddressSanitizer, $PBT_LIBS/plain without (default and short index types only)"""
    build_libs(os.path.join(tmp, "confs"), [(sub, "conf-%d-%d-%d" % (l, i, f), l, i, f, False, flags)
        for sub, flags in (("", SAN), ("plain", ["-O2", "-g1", "-fopenmp"])) for l in range(3) for i in range(3) for f in range(2)
        if not sub or i == 1 or (l, i, f) == (0, 0, 0)])

def debug_libs(tmp):
    """the ordinary and the debug build with some types"""
    build_libs(os.path.join(tmp, "confs"), [("", "%s-%d-%d-%d" % (("debug" if g else "conf",) + t), t[0], t[1], t[2], g, SAN)
        for t in ((0, 0, 0), (1, 1, 1), (2, 2, 0), (0, 2, 1)) for g in (False, True)])
