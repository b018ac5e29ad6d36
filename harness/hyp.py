"""Hypothesis search over programs (JSON values) that run in a child, a crash of which is an outcome.

A Child has .ran (programs so far), .run(program) -> message or None, classes, still alive; .close()
"""
import collections, hashlib, json, os, sys, tempfile, time

def fresh(make, progs, tmp):
    """programs in a fresh interpreter: the message of the last one"""
    c = make(tmp)
    m = None
    for p in progs:
        m, _, alive = c.run(p)
        if not alive:
            return m if p is progs[-1] else None
    c.close()
    return m

def search(make, strategies, nontrivial, sd, count, wall, out):
    import hypothesis as hy
    tmp = tempfile.mkdtemp(dir=os.environ.get("PBT_SCRATCH"))
    classes = collections.Counter()
    hashes, samples = set(), []
    st = {"cases": 0, "last": None, "first": None, "fail_t": 0, "child": None, "loose": None}
    bad = {}
    t0 = time.time()

    @hy.seed(sd)
    @hy.settings(max_examples=count, database=None, deadline=None, report_multiple_bugs=False, print_blob=False, suppress_health_check=list(hy.HealthCheck),
                 phases=(hy.Phase.generate, hy.Phase.shrink), verbosity=hy.Verbosity.quiet)
    @hy.given(strategies())
    def test(prog):
        key = json.dumps(prog)
        now = time.time()
        if st["fail_t"] and now - st["fail_t"] > 60:   # end of shrinking
            if key in bad:
                raise AssertionError(bad[key])
            return
        if not st["fail_t"] and now - t0 > wall:
            return
        c = st["child"]
        if c is None or len(c.ran) >= 300:
            if c: c.close()
            c = st["child"] = make(tmp)
        m, cls, alive = c.run(prog)
        st["cases"] += 1
        if m:
            before = c.ran[:-1]
            if alive: c.close()
            st["child"] = None
            if fresh(make, [prog], tmp) is None:
                st["loose"] = (before, prog, m)   # fails only after other programs
                st["fail_t"] = st["fail_t"] or now - 1000
            bad[key] = m
            st["last"] = prog
            st["fail_t"] = st["fail_t"] or now
            raise AssertionError(m)
        for c in cls:
            classes[c] += 1
        if nontrivial(prog, cls):
            h = int.from_bytes(hashlib.blake2b(key.encode(), digest_size=8).digest(), "little")
            if h not in hashes:
                hashes.add(h)
                if len(samples) < 3 and len(hashes) % 50 == 1:
                    samples.append(key[:1500])
    failure = None
    try:
        test()
    except BaseException:
        if not bad:
            raise
        if st["loose"]:
            before, prog, m = st["loose"]
            step = len(before)
            while step:   # drop programs before it that are not needed
                i = 0
                while i < len(before) and time.time() - t0 < wall + 100:
                    cut = before[:i] + before[i + step:]
                    if fresh(make, cut + [prog], tmp): before = cut
                    else: i += step
                step //= 2
            cand = before + [prog]
            m2 = m
        else:
            cand = [json.loads(json.dumps(st["last"]))]
            m2 = bad[json.dumps(st["last"])]
        n = sum(fresh(make, cand, tmp) is not None for _ in range(5))
        failure = {"message": m2, "desc": " then ".join(json.dumps(p) for p in cand), "program": cand, "confirmed": n}
    if st["child"]: st["child"].close()
    json.dump({"cases": st["cases"], "nontrivial": len(hashes), "classes": classes, "samples": samples, "failure": failure, "hashes": sorted(hashes)}, open(out, "w"))


def main(argv, make, strategies, nontrivial):
    """search SEED COUNT WALL OUT | replay PROGRAMS.json"""
    if argv[0] == "search":
        search(make, strategies, nontrivial, int(argv[1]), int(argv[2]), float(argv[3]), argv[4])
        return
    progs = json.load(open(argv[1]))
    m = fresh(make, progs, tempfile.mkdtemp(dir=os.environ.get("PBT_SCRATCH")))
    if m:
        print("programs:", json.dumps(progs))
        print("failure:", m)
        sys.exit(1)
    print("the program runs as it should")
