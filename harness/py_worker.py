"""C25: programs over PyHdbscan objects, compared with the C library (ctypes); run by python3-vt with libasan preloaded.

py_worker.py EXTDIR ORACLE search SEED COUNT WALL OUT     generate, check, shrink
py_worker.py EXTDIR ORACLE replay PROGRAM.json            exit 1 if the program fails
"""
import collections, ctypes, gc, hashlib, json, os, select, shutil, signal, sys, tempfile, time, traceback

import numpy as np
import hyp

EXT, ORA = sys.argv[1], sys.argv[2]
sys.path.insert(0, EXT)
import PyHdbscan as ext  # noqa: E402

P = ext.PyHdbscan
NATIVE = ctypes.CDLL(ext.__file__)
NATIVE.vh_live.restype = ctypes.c_long   # blocks held by the library and the module
O = ctypes.CDLL(ORA)
O.vo_new.restype = ctypes.c_void_p
O.vo_new.argtypes = [ctypes.c_long]
O.vo_run.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_int]
for f in ("vo_free", "vo_n", "vo_levels"):
    getattr(O, f).argtypes = [ctypes.c_void_p]
O.vo_n.restype = O.vo_levels.restype = ctypes.c_long
O.vo_labels.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
O.vo_level.argtypes = [ctypes.c_void_p, ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]

TYPES = {"float64": 1, "float32": 2, "int32": 0, "int64": 3, "int16": 4}  # H_INT, H_DOUBLE, H_FLOAT, H_LONG, H_SHORT
DTYPES = list(TYPES)
LAYOUTS = ["C", "F", "T", "rows", "cols", "reverse", "reverse2", "unaligned", "swapped", "swappedF", "readonly", "broadcast", "subclass", "1d", "offset", "fancy", "memmap", "three"]

class Fail(Exception):
    pass

def need(c, *m):
    if not c:
        raise Fail(" ".join(str(x) for x in m))

def values(ds):
    """the exact values of a dataset specification, as a C-contiguous native array"""
    r = np.random.RandomState(ds["seed"])
    n, d = ds["n"], ds["d"]
    t = np.dtype(ds["dtype"])
    k = ds["kind"]
    if k == "grid":
        a = r.randint(0, 5, (n, d))
    elif k == "line":
        a = np.cumsum(r.choice([1, 1, 2, 3, 20], (n, d)), axis=0)
        a = a[r.permutation(n)]
    elif k == "clusters":
        c = r.randint(-200, 200, (1 + ds["seed"] % 5, d))
        a = c[r.randint(0, len(c), n)] + r.randint(-3, 4, (n, d))
        far = r.rand(n) < 0.1
        a = np.where(far[:, None], r.randint(-400, 400, (n, d)), a)
    elif k == "same":
        a = np.full((n, d), 7)
    elif k == "extreme" and t.kind == "i":
        i = np.iinfo(t)
        a = r.choice(np.array([i.min, i.min + 1, -1, 0, 1, i.max - 1, i.max], dtype=t), (n, d))
    else:
        a = r.randn(n, d) * 10
        if t.kind == "i":
            a = a * 5
    return np.ascontiguousarray(a.astype(t))

def layout(v, how, tmp):
    """an array with the values v in some memory layout (and the values the library must see)"""
    n, d = v.shape
    if how == "F": return np.asfortranarray(v)
    if how == "T": return np.ascontiguousarray(v.T).T
    if how == "rows":
        b = np.full((2 * n, d), 77, v.dtype); b[::2] = v; return b[::2]
    if how == "cols":
        b = np.full((n, 3 * d), 77, v.dtype); b[:, ::3] = v; return b[:, ::3]
    if how == "reverse": return np.ascontiguousarray(v[::-1])[::-1]
    if how == "reverse2": return np.ascontiguousarray(v[:, ::-1])[:, ::-1]
    if how == "unaligned":
        b = np.zeros(v.nbytes + 1, np.uint8)
        a = b[1:].view(v.dtype).reshape(n, d); a[...] = v; return a
    if how == "swapped": return v.astype(v.dtype.newbyteorder(">"))
    if how == "swappedF": return np.asfortranarray(v.astype(v.dtype.newbyteorder(">")))
    if how == "readonly":
        a = v.copy(); a.flags.writeable = False; return a
    if how == "subclass": return np.matrix(v)
    if how == "offset":
        b = np.full((n + 2, d + 1), 77, v.dtype); b[1:-1, 1:] = v; return b[1:-1, 1:]
    if how == "fancy":
        b = np.ascontiguousarray(v[:, ::-1]); return b[:, np.arange(d)[::-1]]
    if how == "memmap":
        m = np.memmap(os.path.join(tmp, "mm%d" % len(os.listdir(tmp))), v.dtype, "w+", shape=v.shape); m[...] = v; return m
    if how == "three":
        b = np.zeros((n, 2, d), v.dtype); b[:, 1, :] = v; return b[:, 1, :]
    return v.copy()

def make(ds, tmp):
    v = values(ds)
    how = ds["layout"]
    if how == "1d":
        v = np.ascontiguousarray(v[:, :1]).reshape(-1)
        s = ds["seed"] % 4
        if s == 0: a = v.copy()
        elif s == 1: a = np.repeat(v, 2)[::2]
        elif s == 2: a = np.ascontiguousarray(v[::-1])[::-1]
        else: a = v.astype(v.dtype.newbyteorder(">"))
        return a, v.reshape(-1, 1)
    if how == "broadcast":
        if ds["seed"] % 2:
            a = np.broadcast_to(v[:1], v.shape)
        else:
            a = np.broadcast_to(v[:, :1], v.shape)
        return a, np.array(a, order="C")
    return layout(v, how, tmp), v

def make_bad(kind, tmp):
    f = {
        "list": lambda: [[1.0, 2.0], [3.0, 4.0]], "none": lambda: None, "int": lambda: 3, "str": lambda: "abc", "tuple": lambda: (1, 2), "bytes": lambda: b"12345678",
        "uint8": lambda: np.zeros((4, 2), np.uint8), "int8": lambda: np.zeros((4, 2), np.int8), "uint64": lambda: np.zeros((4, 2), np.uint64), "uint32": lambda: np.zeros((9, 2), np.uint32),
        "uint16": lambda: np.zeros((9, 2), np.uint16), "bool": lambda: np.zeros((5, 1), bool), "float16": lambda: np.zeros((5, 2), np.float16), "complex": lambda: np.zeros((5, 2), complex),
        "object": lambda: np.array([[1, 2], [3, 4]], object), "strings": lambda: np.array([["a", "b"]]), "longdouble": lambda: np.zeros((5, 2), np.longdouble),
        "datetime": lambda: np.zeros(4, "M8[s]"), "struct": lambda: np.zeros(4, [("a", "f8")]), "0d": lambda: np.array(3.5), "3d": lambda: np.zeros((3, 2, 2)), "4d": lambda: np.zeros((1, 2, 2, 2)),
        "3dF": lambda: np.zeros((3, 2, 2), order="F"),
        "empty": lambda: np.zeros((0, 3)), "empty1": lambda: np.zeros(0), "scalar": lambda: np.float64(2),
    }
    return f[kind]()

BAD_DATA = ["list", "none", "int", "str", "tuple", "bytes", "uint8", "int8", "uint64", "uint32", "uint16", "bool", "float16", "complex", "object", "strings", "longdouble", "datetime", "struct", "0d", "3d", "4d", "3dF", "empty", "empty1", "scalar"]
BAD_MP = [0, 1, -1, -5, 2 ** 31, 2 ** 32 + 3, 2 ** 40, 2 ** 63 - 1, 2 ** 70, -2 ** 63, "x", None, 2.5]

class Sub(P):
    def __init__(self, mp):
        super().__init__(mp)
        self.extra = [mp]

class Child:
    """an interpreter, forked from this one, that runs programs one after another"""
    def __init__(self, tmp):
        self.tmp, self.ran = tmp, []
        pr, pw = os.pipe()
        rr, rw = os.pipe()
        self.err = tempfile.TemporaryFile()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(pw); os.close(rr)
                os.dup2(self.err.fileno(), 2); os.dup2(self.err.fileno(), 1)
                inp = os.fdopen(pr, "r")
                gc.freeze()
                while True:
                    line = inp.readline()
                    if not line:
                        break
                    scratch = tempfile.mkdtemp(dir=tmp)
                    os.chdir(scratch)
                    out = {"cls": [], "msg": None}
                    try:
                        out["cls"] = execute(json.loads(line), scratch)
                    except Fail as e:
                        out["msg"] = str(e)
                    except BaseException as e:
                        out["msg"] = "unexpected %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:])
                    b = json.dumps(out).encode()[:60000] + b"\n"
                    os.chdir(tmp)
                    shutil.rmtree(scratch, ignore_errors=True)
                    while b:
                        b = b[os.write(rw, b):]
            finally:
                os._exit(0)
        os.close(pr); os.close(rw)
        self.w, self.r = pw, rr
    def run(self, prog):
        """None or a message, the classes reached, and whether the child is still there"""
        self.ran.append(prog)
        b = (json.dumps(prog) + "\n").encode()
        while b:
            b = b[os.write(self.w, b):]
        buf, end = b"", time.time() + 60
        while not buf.endswith(b"\n"):
            x, _, _ = select.select([self.r], [], [], max(0.0, end - time.time()))
            if not x:
                self.close(True)
                return "the program did not end within 60 s", [], False
            c = os.read(self.r, 65536)
            if not c:
                st = self.close(False)
                self.err.seek(0)
                t = self.err.read().decode(errors="replace")
                i = max(t.find("ERROR: AddressSanitizer"), t.find("runtime error"))
                return "the interpreter crashed (status %d): %s" % (st, t[max(0, i - 100):][:1500]), [], False
            buf += c
        o = json.loads(buf)
        return o["msg"], o["cls"], True
    def close(self, kill=False):
        if not self.pid:
            return 0
        os.close(self.w); os.close(self.r)
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        _, st = os.waitpid(self.pid, 0)
        self.pid = 0
        return st

class Want:
    """what the C library yields"""
    def __init__(self, v, dtype, mp):
        b = np.array(v, order="C")
        h = O.vo_new(mp)
        need(O.vo_run(h, b.ctypes.data, v.shape[0], v.shape[1], 1, TYPES[dtype]) == 0, "oracle run failed")
        n = v.shape[0]
        l = np.zeros(n, np.int64)
        O.vo_labels(h, l.ctypes.data)
        self.labels = l.tolist()
        self.levels = {}
        for i in range(O.vo_levels(h)):
            k = np.zeros(1, np.int64); wt = np.zeros(1); x = np.zeros(n, np.int64)
            O.vo_level(h, i, k.ctypes.data, wt.ctypes.data, x.ctypes.data)
            self.levels[int(k[0])] = x.tolist()
        O.vo_free(h)
    def map(self, b, e):
        m = {}
        for i in range(b, e):
            m.setdefault(self.labels[i], []).append(i)
        return m

def as_lists(d):
    return {int(k) + 0: [int(x) for x in v] for k, v in d.items()}   # keys of its own, as references are counted

class Attr:
    pass

def base_counts():
    """reference counts of an object that an attribute and a local variable, an attribute only, a dictionary only refers to"""
    a = Attr()
    y = a.x = [1]
    both = sys.getrefcount(y)
    del y
    one = sys.getrefcount(a.x)
    d = {int("1000001"): np.zeros(1)}
    for q in d:
        bk = sys.getrefcount(q)
    del q
    for v in d.values():
        bv = sys.getrefcount(v)
    return both, one, bk, bv

def counted(d, what):
    """no reference to a key or array of d is left behind"""
    _, _, bk, bv = BASE
    for q in d:
        r = sys.getrefcount(q)
        need(q <= 256 or r == bk, what, "holds", r - bk, "extra references to the key", q)
    for v in d.values():
        r = sys.getrefcount(v)
        need(r == bv, what, "holds", r - bv, "extra references to an array")

class Slot:
    def __init__(self):
        self.o = None

def execute(prog, tmp):
    cls = set()
    slots = [Slot() for _ in range(3)]
    held = []  # (object, copy, what)
    data, oracle = {}, {}
    live0 = NATIVE.vh_live()

    def dataset(i):
        if i not in data:
            a, v = make(prog["data"][i], tmp)
            data[i] = [a, v.copy(), prog["data"][i]["dtype"]]
        return data[i]

    def want(s):
        k = (s.key, s.mp)
        if k not in oracle:
            oracle[k] = Want(s.v, s.dtype, s.mp)
        return oracle[k]

    def check(s, what):
        if not s.ran:
            return
        w = want(s)
        if not s.labels_gone:
            need(list(s.o.labels) == w.labels, "labels after", what, "are", list(s.o.labels)[:60], "and the C library gives", w.labels[:60])
        need(s.o.rows == s.v.shape[0] and s.o.cols == s.v.shape[1], "rows, cols are", s.o.rows, s.o.cols, "for a data set of", s.v.shape)
        need(s.o.minPoints == s.mp, "minPoints is", s.o.minPoints, "and not", s.mp)

    def hold(x, what):
        if isinstance(x, dict):
            held.append((x, as_lists(x), what))
        else:
            held.append((x, [int(y) for y in x], what))

    def recheck(after):
        for x, c, what in held:
            y = as_lists(x) if isinstance(x, dict) else [int(z) for z in x]
            need(y == c, what, "changed after", after, ": it was", str(c)[:300], "and is", str(y)[:300])

    def raises(f, what, *types):
        try:
            f()
        except Exception as e:
            if types:
                need(isinstance(e, types), what, "raised", type(e).__name__, e)
            return
        raise Fail("no exception from " + what)

    for op in prog["ops"]:
        k = op[0]
        s = slots[op[1] % 3]
        if k == "new":
            s.o = Sub(op[2]) if op[3] else (P(op[2]) if op[2] % 2 else P(minPoints=op[2]))
            s.mp, s.ran, s.init, s.labels_gone = op[2], False, True, True
        elif s.o is None:
            continue
        elif k == "run":
            a, v, dt = dataset(op[2])
            if not s.init:
                raises(lambda: s.o.run(a), "run before __init__", RuntimeError)
                continue
            before = np.array(a)
            rc = sys.getrefcount(a)
            ret = s.o.run(a)
            need(ret == 0, "run returned", ret)
            s.v, s.dtype, s.key, s.ran, s.labels_gone = v, dt, op[2], True, False
            if not op[3]:
                need(np.array_equal(before, np.array(a)), "run changed its data set")
            check(s, "run")
            need(sys.getrefcount(s.o.labels) == BASE[1], "run left", sys.getrefcount(s.o.labels) - BASE[1], "extra references to the labels")
            need(sys.getrefcount(a) == rc, "run left", sys.getrefcount(a) - rc, "references to its data set")
            cls.add("run"); cls.add("layout " + prog["data"][op[2]]["layout"]); cls.add("dtype " + dt)
            if v.shape[0] >= 4: cls.add("run>=4")
            if len(set(want(s).labels)) > 1: cls.add("several labels")
            if op[3]:  # the caller reuses its buffer
                if a.flags.writeable:
                    a[...] = 0
                del data[op[2]]
                cls.add("data set overwritten after run")
        elif k == "rerun":
            if not s.ran:
                raises(lambda: s.o.rerun(op[2]), "rerun before run", RuntimeError)
                continue
            ret = s.o.rerun(op[2])
            need(ret == 0, "rerun returned", ret)
            s.mp, s.labels_gone = op[2], False
            check(s, "rerun")
            need(sys.getrefcount(s.o.labels) == BASE[1], "rerun left", sys.getrefcount(s.o.labels) - BASE[1], "extra references to the labels")
            cls.add("rerun")
        elif k == "map":
            if not s.ran:
                raises(lambda: s.o.getClusterMap(0, 0), "getClusterMap before run", RuntimeError)
                continue
            n = s.v.shape[0]
            b = op[2] * n // 16; e = b + op[3] * (n - b) // 16
            m = s.o.getClusterMap(b, e)
            w = want(s).map(b, e)
            need(as_lists(m) == w, "getClusterMap(", b, ",", e, ") is", as_lists(m), "and should be", w)
            need(as_lists(s.o.clusterMap) == w, "clusterMap is", as_lists(s.o.clusterMap))
            need(sys.getrefcount(m) == BASE[0], "getClusterMap left", sys.getrefcount(m) - BASE[0], "extra references to the map")
            counted(m, "the cluster map")
            cls.add("cluster map")
            if b > 0: cls.add("cluster map from the middle")
            if op[4]: hold(m, "a cluster map")
            else: m.clear()
        elif k == "hier":
            if not s.ran:
                raises(lambda: s.o.getHierarchies(), "getHierarchies before run", RuntimeError)
                continue
            need(s.o.getHierarchies() == 1, "getHierarchies did not return 1")
            w = want(s).levels
            g = as_lists(s.o.hierarchy)
            need(g == w, "the hierarchy has levels", sorted(g), "and should have", sorted(w), "; differing:", [(q, g.get(q), w.get(q)) for q in sorted(set(g) | set(w)) if g.get(q) != w.get(q)][:2])
            need(sys.getrefcount(s.o.hierarchy) == BASE[1], "getHierarchies left", sys.getrefcount(s.o.hierarchy) - BASE[1], "extra references to the hierarchy")
            counted(s.o.hierarchy, "the hierarchy")
            if len(w) > 64: cls.add("more than 64 levels")
            cls.add("hierarchy")
            if op[2]: hold(s.o.hierarchy, "a hierarchy")
        elif k == "hold":
            if s.ran and not s.labels_gone:
                hold(s.o.labels, "a label list")
                cls.add("held")
        elif k == "del":
            # what the object refers to is given back
            l, h = getattr(s.o, "labels", None), getattr(s.o, "hierarchy", None)
            rl, rh = sys.getrefcount(l), sys.getrefcount(h)
            s.o = None
            gc.collect()
            if type(l) is list:
                need(sys.getrefcount(l) == rl - 1, "deleting the object left", sys.getrefcount(l) - rl + 1, "references to its labels")
            if type(h) is dict:
                need(sys.getrefcount(h) == rh - 1, "deleting the object left", sys.getrefcount(h) - rh + 1, "references to its hierarchy")
            cls.add("deleted")
            l = h = None
        elif k == "init":
            s.o.__init__(op[2])
            s.mp, s.ran, s.init, s.labels_gone = op[2], False, True, True
            cls.add("initialised again")
        elif k == "raw":
            s.o = P.__new__(P)
            s.init = s.ran = False; s.mp = 0; s.labels_gone = True
            raises(lambda: s.o.labels, "labels of a raw object", AttributeError)
            cls.add("uninitialised")
        elif k == "baddata":
            x = make_bad(op[2], tmp)
            rc = sys.getrefcount(x)
            raises(lambda: s.o.run(x), "run with " + op[2], *((RuntimeError,) if not s.init else (TypeError, ValueError)))
            need(sys.getrefcount(x) == rc, "a refused run left", sys.getrefcount(x) - rc, "references to", op[2])
            cls.add("bad data set")
        elif k == "badmp":
            x = BAD_MP[op[2] % len(BAD_MP)]
            if op[3] and s.init:
                raises(lambda: s.o.rerun(x), "rerun(%r)" % (x,))
            elif op[3] and s.init is False:
                raises(lambda: s.o.rerun(x), "rerun(%r) of a raw object" % (x,))
            else:
                raises(lambda: P(x), "PyHdbscan(%r)" % (x,))
                if s.init:
                    raises(lambda: s.o.__init__(x), "__init__(%r)" % (x,))
            cls.add("bad minPoints")
        elif k == "badrange":
            n = s.v.shape[0] if s.ran else 0
            b, e = [(-1, n), (0, n + 1), (n, n - 1), (n + 1, n + 1), (-3, -1), (0, 2 ** 31 - 1), (-2 ** 31, 0), (2, 1), (0, 2 ** 31), (0, -1), (n + 1, n)][op[2] % 11]
            if n >= e >= b >= 0 and s.ran:
                continue
            raises(lambda: s.o.getClusterMap(b, e), "getClusterMap(%d,%d) of %d points" % (b, e, n))
            cls.add("bad range")
        elif k == "badcall":
            c = [lambda: s.o.run(), lambda: s.o.run(1, 2), lambda: s.o.rerun(), lambda: s.o.rerun(3, 4), lambda: s.o.getClusterMap(), lambda: s.o.getClusterMap(1), lambda: s.o.getClusterMap("a", "b"),
                 lambda: P(), lambda: P(3, 4), lambda: P(minpoints=3), lambda: s.o.getClusterMap(0, 1, 2), lambda: s.o.rerun(None)][op[2] % 12]
            raises(c, "bad call %d" % (op[2] % 12))
            cls.add("bad call")
        elif k == "attr":
            name = ["labels", "clusterMap", "hierarchy", "minPoints", "rows", "cols"][op[2] % 6]
            if name in ("minPoints", "rows", "cols"):
                raises(lambda: setattr(s.o, name, 1000), "assigning " + name, AttributeError, TypeError)
                check(s, "a refused assignment")
            elif op[3] == 0:
                try: delattr(s.o, name)
                except AttributeError: pass
                if name == "labels": s.labels_gone = True
            else:
                setattr(s.o, name, [None, "text", {1: 2}][op[3] % 3])
                if name == "labels": s.labels_gone = True
            cls.add("attributes")
        if s.o is not None:
            check(s, k)
        recheck(k)
    for s in slots:
        s.o = None
        gc.collect()
        recheck("deleting the object")
    need(NATIVE.vh_live() == live0, NATIVE.vh_live() - live0, "blocks of native memory remain after the objects were deleted")
    if held: cls.add("results outlived the object")
    return sorted(cls)

BASE = base_counts()

def strategies():
    from hypothesis import strategies as st
    dsets = st.fixed_dictionaries({
        "kind": st.sampled_from(["clusters", "grid", "line", "reals", "same", "extreme"]),
        "n": st.one_of(st.integers(1, 12), st.integers(1, 40), st.integers(20, 90), st.integers(60, 400)), "d": st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.integers(1, 80)), "seed": st.integers(0, 10000),
        "dtype": st.sampled_from(DTYPES), "layout": st.sampled_from(LAYOUTS)})
    mp = st.one_of(st.integers(2, 6), st.integers(2, 12), st.integers(2, 120))
    slot = st.sampled_from([0, 0, 0, 1, 1, 2])
    small = st.integers(0, 16)
    op = lambda nd: st.one_of(
        st.tuples(st.just("new"), slot, mp, st.booleans()),
        st.tuples(st.just("run"), slot, st.integers(0, nd - 1), st.sampled_from([False, False, True])),
        st.tuples(st.just("run"), slot, st.integers(0, nd - 1), st.just(False)),
        st.tuples(st.just("run"), slot, st.integers(0, nd - 1), st.just(False)),
        st.tuples(st.just("rerun"), slot, mp),
        st.tuples(st.just("rerun"), slot, mp),
        st.tuples(st.just("rerun"), slot, mp),
        st.tuples(st.just("map"), slot, small, small, st.booleans()),
        st.tuples(st.just("map"), slot, st.just(0), st.just(16), st.booleans()),
        st.tuples(st.just("hier"), slot, st.booleans()),
        st.tuples(st.just("hier"), slot, st.booleans()),
        st.tuples(st.just("hold"), slot),
        st.tuples(st.just("del"), slot),
        st.tuples(st.just("init"), slot, mp),
        st.tuples(st.just("raw"), slot),
        st.tuples(st.just("baddata"), slot, st.sampled_from(BAD_DATA)),
        st.tuples(st.just("badmp"), slot, st.integers(0, len(BAD_MP) - 1), st.booleans()),
        st.tuples(st.just("badrange"), slot, st.integers(0, 10)),
        st.tuples(st.just("badcall"), slot, st.integers(0, 11)),
        st.tuples(st.just("attr"), slot, st.integers(0, 5), st.integers(0, 3)))

    @st.composite
    def prog(draw):
        data = draw(st.lists(dsets, min_size=1, max_size=3))
        ops = [("new", 0, draw(mp), False)]
        if draw(st.booleans()):
            ops.append(("new", 1, draw(mp), draw(st.booleans())))
        ops.append(("run", 0, 0, False))
        ops += draw(st.lists(op(len(data)), min_size=2, max_size=16))
        return {"data": data, "ops": ops}
    return prog()

def nontrivial(prog, cls):
    return "run>=4" in cls and len(prog["ops"]) >= 4 and ("rerun" in cls or "cluster map" in cls or "hierarchy" in cls)

hyp.main(sys.argv[3:], Child, strategies, nontrivial)
