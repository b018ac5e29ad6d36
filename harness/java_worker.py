"""C26: programs over Hdbscan objects in a JVM, compared with the C library (ctypes).

java_worker.py CLASSES ORACLE JAVA search SEED COUNT WALL OUT | replay PROGRAMS.json
"""
import ctypes, os, select, struct, subprocess, sys, tempfile, time

import numpy as np
import hyp

CLS, ORA, JAVA = sys.argv[1:4]
O = ctypes.CDLL(ORA)
O.vo_new.restype = ctypes.c_void_p
O.vo_new.argtypes = [ctypes.c_long]
O.vo_run.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_int]
O.vo_free.argtypes = [ctypes.c_void_p]
O.vo_labels.argtypes = [ctypes.c_void_p, ctypes.c_void_p]

class Fail(Exception):
    pass

def need(c, *m):
    if not c:
        raise Fail(" ".join(str(x) for x in m))

def values(ds):
    r = np.random.RandomState(ds["seed"])
    n, d, k = ds["n"], ds["d"], ds["kind"]
    if k == "grid":
        a = r.randint(0, 5, (n, d))
    elif k == "line":
        a = np.cumsum(r.choice([1, 1, 2, 3, 20], (n, d)), axis=0)[r.permutation(n)]
    elif k == "clusters":
        c = r.randint(-200, 200, (1 + ds["seed"] % 5, d))
        a = c[r.randint(0, len(c), n)] + r.randint(-3, 4, (n, d))
    elif k == "same":
        a = np.full((n, d), 7)
    elif k == "tiny":
        a = r.randn(n, d) * 1e-150
    elif k == "huge":
        a = r.randn(n, d) * 1e150
    else:
        a = r.randn(n, d) * 10
    return np.ascontiguousarray(a.astype(np.float64))

def want(v, mp):
    h = O.vo_new(mp)
    O.vo_run(h, v.ctypes.data, v.shape[0], v.shape[1], 1, 1)
    l = np.zeros(v.shape[0], np.int64)
    O.vo_labels(h, l.ctypes.data)
    O.vo_free(h)
    return l.tolist()

class Child:
    """a JVM that runs programs one after another"""
    def __init__(self, tmp):
        self.ran, self.pos = [], 0
        self.dir = tempfile.mkdtemp(dir=tmp)
        a, b = os.path.join(self.dir, "in"), os.path.join(self.dir, "out")
        os.mkfifo(a); os.mkfifo(b)
        self.log = open(os.path.join(self.dir, "log"), "w+")
        self.p = subprocess.Popen([JAVA, "-Xcheck:jni", "-Xmx256m", "-Xss4m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + os.path.join(self.dir, "hs_err"),
                                   "-Djava.library.path=" + CLS, "-cp", CLS, "Driver", a, b], stdout=self.log, stderr=self.log, cwd=self.dir)
        self.w = self.open_or_die(a, os.O_WRONLY)
        self.r = self.open_or_die(b, os.O_RDONLY)
    def open_or_die(self, f, flags):
        end = time.time() + 60
        while True:   # the JVM opens its ends in the same order
            try:
                fd = os.open(f, flags | os.O_NONBLOCK)
                os.set_blocking(fd, True)
                return fd
            except OSError:
                if time.time() > end or self.p.poll() is not None:
                    raise RuntimeError("the JVM did not start: " + self.output())
                time.sleep(0.01)
    def output(self):
        self.log.flush()
        return open(self.log.name, errors="replace").read()[-1500:]
    def news(self):
        with open(self.log.name, errors="replace") as f:
            f.seek(self.pos)
            t = f.read()
            self.pos = f.tell()
        return t
    def read(self, n):
        b, end = b"", time.time() + 60
        while len(b) < n:
            x, _, _ = select.select([self.r], [], [], max(0.0, end - time.time()))
            if not x:
                self.p.kill()
                raise EOFError("the operation did not end within 60 s")
            c = os.read(self.r, n - len(b))
            if not c:
                if self.p.poll() is None and time.time() < end and not b and len(self.ran) == 1:
                    time.sleep(0.01)   # the JVM has not opened its end yet
                    continue
                self.p.wait()
                raise EOFError("the JVM crashed (status %s): %s" % (self.p.returncode, self.output()))
            b += c
        return b
    def int(self):
        return struct.unpack(">i", self.read(4))[0]
    def ints(self):
        n = self.int()
        if n == -1:
            return None
        if n == -100:
            m = struct.unpack(">H", self.read(2))[0]
            raise Fail("an operation raised " + self.read(m).decode(errors="replace"))
        if n == -101:
            raise Fail("run changed its data set")
        return list(struct.unpack(">%di" % n, self.read(4 * n)))
    def op(self, code, slot, *args):
        b = struct.pack(">Bi", code, slot)
        for a in args:
            if isinstance(a, np.ndarray):
                b += struct.pack(">ii", *a.shape) + a.astype(">f8").tobytes()
            else:
                b += struct.pack(">i", a)
        while b:
            b = b[os.write(self.w, b):]
    def run(self, prog):
        self.ran.append(prog)
        try:
            cls = self.execute(prog)
            t = self.news()
            i = t.find(" in native method")
            if i >= 0:
                return "JNI check: " + t[max(0, i - 20):i + 1000], [], True
            return None, cls, True
        except Fail as e:
            try:
                self.end()
            except Exception:
                pass
            return str(e), [], True
        except (EOFError, BrokenPipeError) as e:
            m = str(e)
            if isinstance(e, BrokenPipeError):
                self.p.wait()
                m = "the JVM crashed (status %s): %s" % (self.p.returncode, self.output())
            self.close()
            return m, [], False
    def end(self):
        self.op(7, 0)
        r = self.int()
        if r == -100:
            m = struct.unpack(">H", self.read(2))[0]
            raise Fail("cleaning up raised " + self.read(m).decode(errors="replace"))
        return struct.unpack(">qqq", self.read(24))
    def close(self, kill=False):
        for fd in (self.w, self.r):
            try: os.close(fd)
            except OSError: pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill(); self.p.wait()
        self.log.close()

    def execute(self, prog):
        cls = set()
        st = [None, None, None]   # object: minPts of the constructor, of the native object; data set; labels; ran since clean
        cache, held = {}, False
        def labels(o):
            k = (o["ds"], o["mp"])
            if k not in cache:
                cache[k] = want(values(prog["data"][o["ds"]]), o["mp"])
            return cache[k]
        def same(got, w, what):
            need(got == w, "labels after", what, "are", str(got)[:400], "and the C library gives", str(w)[:400])
        for op in prog["ops"]:
            k, s = op[0], op[1] % 3
            o = st[s]
            if k == "new":
                self.op(1, s, op[2]); self.ints()
                st[s] = {"mp0": op[2], "mp": op[2], "ds": None, "labels": None, "live": False}
            elif o is None:
                continue
            elif k == "run":
                v = values(prog["data"][op[2]])
                self.op(2, s, v, 1 if op[3] else 0)
                o["ds"] = op[2]; o["live"] = True
                o["labels"] = labels(o)
                same(self.ints(), o["labels"], "run")
                cls.add("run")
                if v.shape[0] >= 4: cls.add("run>=4")
                if len(set(o["labels"])) > 1: cls.add("several labels")
            elif k == "rerun":
                if not o["live"]:
                    self.op(3, s, op[2]); self.ints()   # nothing to run again: any labels, no crash
                    o["mp"] = op[2]; o["labels"] = "any"
                    self.op(5, s); self.ints()
                    o["mp"] = o["mp0"]
                    cls.add("rerun without run")
                else:
                    o["mp"] = op[2]; o["labels"] = labels(o)
                    self.op(3, s, op[2]); same(self.ints(), o["labels"], "rerun")
                    cls.add("rerun")
            elif k == "map":
                self.op(4, s)
                n = self.ints_map()
                if o["labels"] == "any":
                    continue
                w = None
                if o["labels"]:
                    w = {}
                    for i, l in enumerate(o["labels"]): w.setdefault(l, []).append(i)
                    cls.add("cluster map")
                need(n == w, "cluster map is", str(n)[:400], "and should be", str(w)[:400])
            elif k == "clean":
                self.op(5, s); self.ints()
                if op[2]: self.op(5, s); self.ints()
                o["mp"], o["live"] = o["mp0"], False
                cls.add("clean")
            elif k == "drop":
                self.op(6, s); self.ints()
                st[s] = None
            elif k == "hold":
                self.op(8, s); self.int()
                held = True
            elif k == "bad":
                self.op(10, s, op[2])
                r = self.int()
                got = self.ints()
                need(r == 1, "no exception from run with unsupported data set", op[2])
                if o["labels"] != "any":
                    same(got, o["labels"], "a refused data set")
                cls.add("bad data set")
            elif k == "par":
                t = op[2] % 3
                p = st[t]
                if t == s or p is None: continue
                self.op(11, s, t, values(prog["data"][op[3]]), values(prog["data"][op[4]]))
                for q, i in ((o, op[3]), (p, op[4])):
                    q["ds"] = i; q["live"] = True
                    q["labels"] = labels(q)
                same(self.ints(), o["labels"], "run in one of two threads")
                same(self.ints(), p["labels"], "run in one of two threads")
                cls.add("two threads")
            self.op(9, 0)
            r = self.ints_code()
            need(r == 0, "held labels or cluster map changed after", k)
        live, obtained, refs = self.end()
        need(obtained == 0, obtained, "buffers obtained from the JVM are not given back")
        need(refs <= 64, refs, "local references are held at one time")
        need(live == 0, "memory is not released by cleanHdbscan:", live, "allocations remain")
        if held: cls.add("held")
        return sorted(cls)
    def ints_code(self):
        n = self.int()
        if n == -100:
            m = struct.unpack(">H", self.read(2))[0]
            raise Fail("an operation raised " + self.read(m).decode(errors="replace"))
        return n
    def ints_map(self):
        n = self.ints_code()
        if n == -1:
            return None
        m = {}
        for _ in range(n):
            k = self.int()
            m[k] = self.ints()
        return m

def strategies():
    from hypothesis import strategies as st
    dsets = st.fixed_dictionaries({"kind": st.sampled_from(["clusters", "grid", "line", "reals", "same", "tiny", "huge"]),
        "n": st.one_of(st.integers(1, 12), st.integers(1, 40), st.integers(20, 120), st.integers(60, 500)), "d": st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(1, 80)), "seed": st.integers(0, 10000)})
    mp = st.one_of(st.integers(2, 6), st.integers(2, 12), st.integers(2, 130))
    slot = st.sampled_from([0, 0, 0, 1, 1, 2])
    op = lambda nd: st.one_of(
        st.tuples(st.just("new"), slot, mp),
        st.tuples(st.just("run"), slot, st.integers(0, nd - 1), st.booleans()),
        st.tuples(st.just("run"), slot, st.integers(0, nd - 1), st.just(False)),
        st.tuples(st.just("rerun"), slot, mp), st.tuples(st.just("rerun"), slot, mp),
        st.tuples(st.just("map"), slot), st.tuples(st.just("map"), slot),
        st.tuples(st.just("clean"), slot, st.booleans()),
        st.tuples(st.just("drop"), slot), st.tuples(st.just("hold"), slot),
        st.tuples(st.just("bad"), slot, st.integers(0, 7)),
        st.tuples(st.just("par"), slot, st.integers(0, 2), st.integers(0, nd - 1), st.integers(0, nd - 1)))

    @st.composite
    def prog(draw):
        data = draw(st.lists(dsets, min_size=1, max_size=3))
        ops = [("new", 0, draw(mp))]
        if draw(st.booleans()):
            ops.append(("new", 1, draw(mp)))
        ops.append(("run", 0, 0, False))
        ops += draw(st.lists(op(len(data)), min_size=2, max_size=16))
        return {"data": data, "ops": ops}
    return prog()

def nontrivial(prog, cls):
    return "run>=4" in cls and len(prog["ops"]) >= 4 and ("rerun" in cls or "cluster map" in cls or "clean" in cls)

hyp.main(sys.argv[4:], Child, strategies, nontrivial)
