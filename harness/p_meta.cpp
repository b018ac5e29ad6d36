// C10 invariance of the clustering under transformations of the data set
#include "ref.hpp"

static bool fits(long double x, int t) {
    long double lo, hi;
    switch (t) {
    case H_DOUBLE: return fabsl(x) <= 1e9L && x * 1024 == floorl(x * 1024);
    case H_FLOAT: return fabsl(x) <= (1 << 18) && x * 16 == floorl(x * 16);
    default: type_limits(t, lo, hi); return x == floorl(x) && x >= lo && x <= hi && (t != H_LONG || fabsl(x) <= 1e9L);
    }
}
static bool all_fit(const std::vector<long double> &v, int t) { for (auto x : v) if (!fits(x, t)) return false; return true; }

PROP(C10) {
    bool exact = s.freq({3, 1}) == 0;
    GenOpt o;
    o.size(c.scale, 50, 150, 600, 3000);
    o.exact_only = exact;
    o.far = false;
    o.min_n = 2;
    DS d = gen_dataset(s, o);
    int thr = gen_threads(s);
    c.classify("threads>1", thr > 1);
    size_t n = d.n(), mp = gen_minpts(s, n);
    DS e = d;
    std::vector<size_t> perm(n);
    std::iota(perm.begin(), perm.end(), 0); // e's point i is d's point perm[i]
    long double f = 1;
    bool p2 = true;
    std::string what;
    int nt = (int)s.range(1, 3);
    for (int t = 0; t < nt; t++) {
        int k = exact ? s.freq({5, 3, 2, 2, 2, 4, 2, 4}) : s.freq({5, 0, 0, 2, 2, 0, 2, 0});
        size_t dim = e.dim(), m = e.n();
        switch (k) {
        case 0: { // permute points
            std::vector<size_t> q(m);
            std::iota(q.begin(), q.end(), 0);
            for (size_t i = m; i > 1; i--) std::swap(q[i - 1], q[(size_t)s.draw(i - 1)]);
            std::vector<long double> v;
            std::vector<size_t> np;
            for (size_t i = 0; i < m; i++) { for (size_t j = 0; j < dim; j++) v.push_back(e.v[q[i] * dim + j]); np.push_back(perm[q[i]]); }
            e.v = v; perm = np;
            what += " permute-points";
            c.classify("permuted points");
            break;
        }
        case 1: { // translate
            std::vector<long double> v = e.v;
            for (size_t j = 0; j < dim; j++) {
                long double a = s.freq({3, 1}) ? (long double)s.range(-100000, 100000) : (long double)s.range(-300, 300);
                if (e.rowwise != 1 && j) continue;
                for (size_t i = 0; i < m; i++) v[i * dim + j] += a;
            }
            if (!all_fit(v, e.type)) break;
            e.v = v;
            what += " translate";
            c.classify("translated");
            break;
        }
        case 2: { // permute columns
            std::vector<size_t> q(dim);
            std::iota(q.begin(), q.end(), 0);
            for (size_t i = dim; i > 1; i--) std::swap(q[i - 1], q[(size_t)s.draw(i - 1)]);
            std::vector<long double> v = e.v;
            for (size_t i = 0; i < m; i++) for (size_t j = 0; j < dim; j++) v[i * dim + j] = e.v[i * dim + q[j]];
            e.v = v;
            what += " permute-columns";
            c.classify("permuted columns", dim > 1);
            break;
        }
        case 3: { // negate columns
            std::vector<long double> v = e.v;
            for (size_t j = 0; j < dim; j++) if (s.coin()) for (size_t i = 0; i < m; i++) v[i * dim + j] = -v[i * dim + j];
            long double lo, hi; type_limits(e.type, lo, hi);
            bool ok = true;
            if (e.type != H_DOUBLE && e.type != H_FLOAT) for (auto x : v) ok &= x >= lo && x <= hi;
            if (!ok) break;
            e.v = v;
            what += " negate";
            c.classify("negated columns");
            break;
        }
        case 4: { // constant columns
            if (e.rowwise != 1) break;
            int add = (int)s.range(1, 3);
            std::vector<long double> v;
            std::vector<long double> cv;
            size_t at = (size_t)s.draw(dim);
            for (int j = 0; j < add; j++) cv.push_back((long double)s.range(-100, 100));
            for (size_t i = 0; i < m; i++) {
                for (size_t j = 0; j < at; j++) v.push_back(e.v[i * dim + j]);
                for (auto x : cv) v.push_back(x);
                for (size_t j = at; j < dim; j++) v.push_back(e.v[i * dim + j]);
            }
            e.v = v; e.cols = dim + (size_t)add;
            what += " constant-columns";
            c.classify("constant columns");
            break;
        }
        case 5: { // other element type
            int t2 = (int)s.draw(5);
            if (!all_fit(e.v, t2)) t2 = s.coin() ? H_DOUBLE : H_LONG;
            if (!all_fit(e.v, t2) || t2 == e.type) break;
            e.type = t2;
            what += std::string(" as-") + type_names[t2];
            c.classify("other element type");
            break;
        }
        case 6: { // single column: any shape with rowwise = FALSE
            if (e.dim() != 1) break;
            std::vector<size_t> divs;
            for (size_t q = 1; q <= m; q++) if (m % q == 0) divs.push_back(q);
            size_t cc = divs[(size_t)s.draw(divs.size() - 1)];
            if (e.rowwise != 1 && s.coin()) { e.rowwise = 1; e.rows = m; e.cols = 1; what += " as-column"; }
            else { e.rowwise = 0; e.cols = cc; e.rows = m / cc; what += pbt_msg(" rowwise-FALSE ", e.rows, "x", e.cols); }
            c.classify("flattened");
            break;
        }
        default: { // scale
            static const long double fs[] = {2, 4, 0.5L, 3, 10, 7, 1024};
            long double g = fs[s.draw(6)];
            std::vector<long double> v = e.v;
            for (auto &x : v) x *= g;
            if (!all_fit(v, e.type)) break;
            e.v = v; f *= g;
            p2 = p2 && pow2((double)g);
            what += pbt_msg(" scale-by-", (double)g);
            c.classify("scaled");
        }
        }
    }
    if (exact && (e.type == H_DOUBLE || e.type == H_FLOAT) && s.freq({5, 2})) { // power of two far from 1: every operation stays exact
        int lim = e.type == H_DOUBLE ? 160 : 40, k = (int)s.range(-lim, lim);
        for (auto &x : e.v) x = ldexpl(x, k);
        f = ldexpl(f, k);
        what += pbt_msg(" scale-by-2^", k);
        c.classify("scaled far");
    }
    c.sample = pbt_msg("minPts ", mp, what, ": ", d.str(), " => ", e.str());
    std::vector<unsigned char> b = d.bytes(), eb = e.bytes();
    Obj h(mp), g(mp);
    run_ok(h.sc, d, b);
    run_ok(g.sc, e, eb);
    double fd = (double)f, tol = p2 ? 0 : 1e-12;
    auto eq = [&](double a, double x) { return x == (double)D_MAX ? a == x : close_rel(a, x * fd, tol); };
    std::vector<size_t> inv(n);
    for (size_t i = 0; i < n; i++) inv[perm[i]] = i;
    for (size_t i = 0; i < n; i++) {
        for (size_t j = 0; j < n; j++) {
            double x = (double)distance_get(&g.sc->distanceFunction, (index_t)i, (index_t)j), y = (double)distance_get(&h.sc->distanceFunction, (index_t)perm[i], (index_t)perm[j]);
            CHECK(eq(x, y), "distance(", i, ",", j, ") is ", x, " after", what, "; ", y, " before");
        }
        double x = (double)g.sc->distanceFunction.coreDistances[i], y = (double)h.sc->distanceFunction.coreDistances[perm[i]];
        CHECK(eq(x, y), "core distance of point ", i, " is ", x, " after", what, "; ", y, " before");
    }
    Snap A = snap(h.sc, false), B = snap(g.sc, false);
    CHECK(A.levels.size() == B.levels.size(), "hierarchy has ", B.levels.size(), " levels after", what, "; ", A.levels.size(), " before");
    auto ia = A.levels.begin();
    for (auto &kv : B.levels) {
        CHECK(kv.first == ia->first, "hierarchy keys differ");
        CHECK(eq(kv.second.first, ia->second.first), "hierarchy level ", kv.first, " has weight ", kv.second.first, " after", what, "; ", ia->second.first, " before");
        std::vector<long> l(n);
        for (size_t i = 0; i < n; i++) l[perm[i]] = kv.second.second[i];
        std::string p = same_partition(ia->second.second, l);
        CHECK(p.empty(), "hierarchy level ", kv.first, " differs after", what, ": ", p);
        ++ia;
    }
    Ref R = lib_reference(h.sc);
    FlatCheck fc(R);
    bool close_call = false;
    for (size_t i = 1; i < R.cl.size(); i++) close_call |= fc.prefer(i) == 0;
    if (R.exact && !p2) for (size_t i = 1; i < R.cl.size(); i++) close_call |= !R.cl[i].children.empty() && fabs(fc.stab[i] - fc.sum[i]) <= 1e-9 * fabs(fc.stab[i]);
    c.classify("too close to call", close_call);
    if (!close_call) {
        std::vector<long> l(n);
        for (size_t i = 0; i < n; i++) l[perm[i]] = B.labels[i];
        std::string p = same_partition(A.labels, l);
        CHECK(p.empty(), "labels differ after", what, ": ", p);
    }
    std::vector<double> sa(n), sb(n);
    for (auto &x : A.scores) sa[x.id] = x.s;
    for (auto &x : B.scores) sb[perm[x.id]] = x.s;
    for (size_t i = 0; i < n; i++) CHECK(fabs(sa[i] - sb[i]) <= (p2 ? 0 : 1e-11), "outlier score of point ", i, " is ", sb[i], " after", what, "; ", sa[i], " before");
    c.classify("split", R.cl.size() > 1);
    c.nontrivial(!what.empty() && n >= 4);
}
