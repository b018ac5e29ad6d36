// Reference HDBSCAN* computed straight from the definitions, plus snapshots of library results.
#pragma once
#include "gen.hpp"
#include <map>
#include <set>
#include <limits>
#include <numeric>

using clustering::hdbscan;
using clustering::cluster;
using clustering::hierarchy_entry;
using clustering::outlier_score;
using clustering::distance_values;
using clustering::clustering_stats;
using clustering::stats_values;
using clustering::UndirectedGraph;
using namespace clustering;
typedef clustering::Distance cdistance;

// ---------------------------------------------------------------- reference
struct RefCluster {
    int parent = -1;
    double birth = NAN, death = 0, stability = 0;
    size_t size = 0, remaining = 0;
    std::vector<size_t> members;     // at birth
    std::set<size_t> noise;          // left for noise
    std::vector<int> children;
    double lowest = 0;               // lowest death level in the sub-tree
};
struct RefLevel { double w; std::vector<int> lab; bool split = false; }; // labels before the edges of weight w go; -1 noise
struct Ref {
    size_t n = 0, minPts = 0;
    std::vector<double> core;
    std::vector<double> mstw;        // sorted tree edge weights
    std::vector<RefCluster> cl;      // 0 = root
    std::vector<RefLevel> levels;    // strictly descending weight
    std::vector<double> noiseLevel;
    std::vector<int> lastCluster;
    bool exact = false;              // all weights powers of two: stabilities are computed without rounding
    bool infinite = false;
};

struct DSU {
    std::vector<size_t> p;
    explicit DSU(size_t n) : p(n) { std::iota(p.begin(), p.end(), 0); }
    size_t f(size_t x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
    void u(size_t a, size_t b) { p[f(a)] = f(b); }
};

static bool pow2(double x) { int e; return x > 0 && frexp(x, &e) == 0.5 && e > -40 && e < 40; }

// D(i,j): distances to be used
template <class F> static std::vector<double> ref_core(size_t n, size_t minPts, F D) {
    std::vector<double> c(n);
    for (size_t i = 0; i < n; i++) {
        if (minPts > n) { c[i] = (double)D_MAX; continue; }
        std::vector<double> r(n);
        for (size_t j = 0; j < n; j++) r[j] = D(i, j);
        std::nth_element(r.begin(), r.begin() + (long)(minPts - 1), r.end());
        c[i] = r[minPts - 1];
    }
    return c;
}

template <class F> static Ref reference(size_t n, size_t minPts, F D) {
    Ref R;
    R.n = n; R.minPts = minPts;
    R.core = ref_core(n, minPts, D);
    auto M = [&](size_t i, size_t j) { return std::max(D(i, j), std::max(R.core[i], R.core[j])); };
    // minimum spanning tree (Prim), as edges
    struct E { double w; size_t a, b; };
    std::vector<E> es;
    if (n > 1) {
        std::vector<double> best(n, INFINITY);
        std::vector<size_t> from(n, 0);
        std::vector<char> in(n, 0);
        size_t cur = 0;
        in[0] = 1;
        for (size_t k = 1; k < n; k++) {
            size_t nx = n;
            for (size_t j = 0; j < n; j++) {
                if (in[j]) continue;
                double m = M(cur, j);
                if (m < best[j]) { best[j] = m; from[j] = cur; }
                if (nx == n || best[j] < best[nx]) nx = j;
            }
            es.push_back({best[nx], from[nx], nx});
            in[nx] = 1;
            cur = nx;
        }
    }
    for (auto &e : es) R.mstw.push_back(e.w);
    std::sort(R.mstw.begin(), R.mstw.end());
    std::sort(es.begin(), es.end(), [](const E &x, const E &y) { return x.w < y.w; });
    std::vector<double> ws(R.mstw);
    ws.insert(ws.end(), R.core.begin(), R.core.end());
    std::sort(ws.begin(), ws.end(), std::greater<double>());
    ws.erase(std::unique(ws.begin(), ws.end()), ws.end());
    R.exact = true;
    for (double w : ws) if (!pow2(w)) R.exact = false;
    RefCluster root;
    root.size = root.remaining = n;
    for (size_t i = 0; i < n; i++) root.members.push_back(i);
    R.cl.push_back(root);
    std::vector<int> lab(n, 0);
    R.noiseLevel.assign(n, 0);
    R.lastCluster.assign(n, -1);
    for (double w : ws) {
        // components of the edges lighter than w
        DSU d(n);
        for (auto &e : es) { if (!(e.w < w)) break; d.u(e.a, e.b); }
        std::map<std::pair<int, size_t>, std::vector<size_t>> comp;
        for (size_t i = 0; i < n; i++) if (lab[i] >= 0) comp[{lab[i], d.f(i)}].push_back(i);
        std::vector<int> before = lab;
        bool changed = false, split = false;
        auto detach = [&](int c, size_t k) {
            RefCluster &C = R.cl[(size_t)c];
            C.stability += (double)k * (1 / w - 1 / C.birth);
            C.remaining -= k;
            if (C.remaining == 0) C.death = w;
        };
        for (auto it = comp.begin(); it != comp.end();) {
            int c = it->first.first;
            auto e = it;
            size_t valid = 0;
            while (e != comp.end() && e->first.first == c) { if (e->second.size() >= minPts) valid++; ++e; }
            for (; it != e; ++it) {
                auto &mem = it->second;
                if (mem.size() < minPts) {
                    detach(c, mem.size());
                    for (size_t p : mem) { lab[p] = -1; R.noiseLevel[p] = w; R.lastCluster[p] = c; R.cl[(size_t)c].noise.insert(p); }
                    changed = true;
                } else if (valid >= 2) {
                    detach(c, mem.size());
                    RefCluster nc;
                    nc.parent = c; nc.birth = w; nc.size = nc.remaining = mem.size(); nc.members = mem;
                    int id = (int)R.cl.size();
                    R.cl.push_back(nc);
                    R.cl[(size_t)c].children.push_back(id);
                    for (size_t p : mem) lab[p] = id;
                    changed = split = true;
                }
            }
        }
        if (changed) { RefLevel L; L.w = w; L.lab = before; L.split = split; R.levels.push_back(L); }
    }
    for (size_t i = R.cl.size(); i-- > 0;) {
        RefCluster &C = R.cl[i];
        C.lowest = C.death;
        for (int k : C.children) C.lowest = std::min(C.lowest, R.cl[(size_t)k].lowest);
        if (std::isinf(C.stability)) R.infinite = true;
    }
    return R;
}

// ---------------------------------------------------------------- snapshot of a library object
struct SnapCluster {
    bool null = true;
    long label = 0, parent = -1, numPoints = 0, offset = 0;
    double birth = 0, death = 0, stability = 0, pstab = 0, lowest = 0;
    bool kids = false;
    std::vector<size_t> noise;
};
struct Snap {
    size_t n = 0, minPts = 0;
    std::vector<double> D; // upper triangle
    std::vector<double> core;
    std::vector<long> labels;
    std::map<long, std::pair<double, std::vector<long>>> levels;
    std::vector<SnapCluster> cl;
    struct Sc { double s, c; size_t id; };
    std::vector<Sc> scores;
};

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool close_rel(double a, double b, double tol) {
    if (same(a, b)) return true;
    if (std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b)) return false;
    return fabs(a - b) <= tol * std::max(fabs(a), fabs(b));
}

static void snap_tree(hdbscan *sc, Snap &S, bool withD = true) {
    S.n = sc->numPoints;
    S.minPts = sc->minPoints;
    if (withD)
        for (size_t i = 0; i < S.n; i++)
            for (size_t j = i + 1; j < S.n; j++) S.D.push_back((double)distance_get(&sc->distanceFunction, (index_t)i, (index_t)j));
    for (size_t i = 0; i < S.n; i++) S.core.push_back((double)sc->distanceFunction.coreDistances[i]);
    hashtable *h = sc->hierarchy;
    CHECK(h != NULL, "no hierarchy");
    for (size_t i = 0; i < set_size(h->keys); i++) {
        long key = ((long *)h->keys->data)[i];
        hierarchy_entry *e = NULL;
        CHECK(hashtable_lookup(h, &key, &e) == 1 && e && e->labels, "hierarchy key ", key, " has no entry");
        std::vector<long> l(S.n);
        for (size_t k = 0; k < S.n; k++) l[k] = (long)e->labels[k];
        S.levels[key] = {(double)e->edgeWeight, l};
    }
    CHECK(S.levels.size() == hashtable_size(h), "hierarchy size");
    for (size_t i = 0; i < sc->clusters->size; i++) {
        cluster *c = ((cluster **)sc->clusters->data)[i];
        SnapCluster k;
        if (c) {
            k.null = false;
            k.label = (long)c->label;
            k.parent = c->parent ? (long)c->parent->label : -1;
            k.numPoints = (long)c->numPoints;
            k.offset = (long)c->offset;
            k.birth = (double)c->birthLevel; k.death = (double)c->deathLevel; k.stability = (double)c->stability;
            k.pstab = (double)c->propagatedStability;
            k.lowest = (double)c->propagatedLowestChildDeathLevel;
            k.kids = c->hasChildren != 0;
            for (size_t j = 0; j < c->virtualChildCluster->size; j++) k.noise.push_back(((index_t *)c->virtualChildCluster->data)[j]);
        }
        S.cl.push_back(k);
    }
}
static Snap snap(hdbscan *sc, bool withD = true) {
    Snap S;
    snap_tree(sc, S, withD);
    for (size_t i = 0; i < S.n; i++) {
        S.labels.push_back((long)sc->clusterLabels[i]);
        S.scores.push_back({(double)sc->outlierScores[i].score, (double)sc->outlierScores[i].coreDistance, (size_t)sc->outlierScores[i].id});
    }
    return S;
}

// first difference between two snapshots of the same data set, or ""; tol: relative tolerance for summed values
static std::string snap_diff(const Snap &a, const Snap &b, double tol = 0) {
#define DIFF(x, ...) do { if (x) return pbt_msg(__VA_ARGS__); } while (0)
    DIFF(a.n != b.n, "number of points ", a.n, " vs ", b.n);
    DIFF(a.minPts != b.minPts, "minPoints ", a.minPts, " vs ", b.minPts);
    DIFF(a.D.size() != b.D.size(), "distance count");
    for (size_t i = 0; i < a.D.size(); i++) DIFF(!same(a.D[i], b.D[i]), "distance #", i, ": ", a.D[i], " vs ", b.D[i]);
    for (size_t i = 0; i < a.n; i++) DIFF(!same(a.core[i], b.core[i]), "core distance of point ", i, ": ", a.core[i], " vs ", b.core[i]);
    DIFF(a.levels.size() != b.levels.size(), "hierarchy has ", a.levels.size(), " vs ", b.levels.size(), " entries");
    for (auto &kv : a.levels) {
        auto it = b.levels.find(kv.first);
        DIFF(it == b.levels.end(), "hierarchy key ", kv.first, " missing");
        DIFF(!same(kv.second.first, it->second.first), "weight of hierarchy entry ", kv.first, ": ", kv.second.first, " vs ", it->second.first);
        for (size_t i = 0; i < a.n; i++) DIFF(kv.second.second[i] != it->second.second[i], "label of point ", i, " in hierarchy entry ", kv.first, ": ", kv.second.second[i], " vs ", it->second.second[i]);
    }
    DIFF(a.cl.size() != b.cl.size(), "cluster count ", a.cl.size(), " vs ", b.cl.size());
    for (size_t i = 0; i < a.cl.size(); i++) {
        const SnapCluster &x = a.cl[i], &y = b.cl[i];
        DIFF(x.null != y.null, "cluster ", i, " NULL");
        DIFF(x.label != y.label || x.parent != y.parent || x.numPoints != y.numPoints || x.kids != y.kids || x.offset != y.offset,
             "cluster ", i, " label/parent/points/children/offset: ", x.label, "/", x.parent, "/", x.numPoints, "/", x.kids, "/", x.offset, " vs ", y.label, "/", y.parent, "/", y.numPoints, "/", y.kids, "/", y.offset);
        DIFF(!same(x.birth, y.birth), "birth level of cluster ", i, ": ", x.birth, " vs ", y.birth);
        DIFF(!same(x.death, y.death), "death level of cluster ", i, ": ", x.death, " vs ", y.death);
        DIFF(!same(x.lowest, y.lowest), "lowest death level of cluster ", i, ": ", x.lowest, " vs ", y.lowest);
        DIFF(!close_rel(x.stability, y.stability, tol), "stability of cluster ", i, ": ", x.stability, " vs ", y.stability);
        DIFF(!close_rel(x.pstab, y.pstab, tol), "propagated stability of cluster ", i, ": ", x.pstab, " vs ", y.pstab);
        DIFF(x.noise != y.noise, "noise members of cluster ", i);
    }
    DIFF(a.labels.size() != b.labels.size(), "label count");
    for (size_t i = 0; i < a.labels.size(); i++) DIFF(a.labels[i] != b.labels[i], "label of point ", i, ": ", a.labels[i], " vs ", b.labels[i]);
    for (size_t i = 0; i < a.scores.size(); i++)
        DIFF(a.scores[i].id != b.scores[i].id || !same(a.scores[i].s, b.scores[i].s) || !same(a.scores[i].c, b.scores[i].c),
             "outlier score #", i, ": (", a.scores[i].id, ",", a.scores[i].s, ",", a.scores[i].c, ") vs (", b.scores[i].id, ",", b.scores[i].s, ",", b.scores[i].c, ")");
    return "";
#undef DIFF
}

// ---------------------------------------------------------------- checks of library results against the reference
// label bijection between library labels and reference clusters
struct LabelMap {
    std::map<long, int> l2r;
    std::map<int, long> r2l;
    bool bind(long l, int r) {
        auto it = l2r.find(l);
        if (it != l2r.end()) return it->second == r;
        if (r2l.count(r)) return false;
        l2r[l] = r; r2l[r] = l;
        return true;
    }
};

static std::string check_levels(const Snap &S, const Ref &R, LabelMap &m) {
    if (!m.bind(1, 0)) return "internal";
    auto z = S.levels.find(0);
    if (z == S.levels.end()) return "no all-noise level 0";
    if (z->second.first != 0) return pbt_msg("level 0 has weight ", z->second.first);
    for (size_t i = 0; i < S.n; i++) if (z->second.second[i] != 0) return pbt_msg("level 0 labels point ", i, " with ", z->second.second[i]);
    long expect = 1;
    for (auto &kv : S.levels) {
        if (kv.first == 0) continue;
        if (kv.first != expect) return pbt_msg("hierarchy keys are not 0..L: ", kv.first, " where ", expect, " is expected");
        if ((size_t)expect > R.levels.size()) return pbt_msg("hierarchy has more than the ", R.levels.size(), " levels at which labels change; extra weight ", kv.second.first);
        const RefLevel &rl = R.levels[(size_t)expect - 1];
        if (kv.second.first != rl.w) return pbt_msg("hierarchy entry ", kv.first, " has weight ", kv.second.first, ", expected ", rl.w);
        for (size_t i = 0; i < S.n; i++) {
            long l = kv.second.second[i];
            int r = rl.lab[i];
            if ((l == 0) != (r < 0)) return pbt_msg("level ", kv.first, " weight ", rl.w, ": point ", i, " has label ", l, ", expected ", r < 0 ? "noise" : "a cluster");
            if (l != 0 && !m.bind(l, r)) return pbt_msg("level ", kv.first, " weight ", rl.w, ": label ", l, " of point ", i, " does not match its density-connected component");
        }
        expect++;
    }
    if ((size_t)expect - 1 != R.levels.size()) return pbt_msg("hierarchy has ", expect - 1, " levels, labels change at ", R.levels.size());
    return "";
}

// optimal total stability of the sub-tree below (and including) reference cluster c, by library stabilities
struct FlatCheck {
    const Ref &R;
    std::vector<double> stab, best;  // best total of the sub-tree, stab of the cluster
    std::vector<double> sum;         // best total of the children
    explicit FlatCheck(const Ref &r) : R(r), stab(r.cl.size()), best(r.cl.size()), sum(r.cl.size()) {
        for (size_t i = 0; i < r.cl.size(); i++) stab[i] = r.cl[i].stability;
        for (size_t i = r.cl.size(); i-- > 0;) {
            double s = 0;
            for (int k : r.cl[i].children) s += best[(size_t)k];
            sum[i] = s;
            best[i] = r.cl[i].children.empty() ? stab[i] : stab[i] >= s ? stab[i] : s;
        }
    }
    // 1: the cluster must be preferred, -1 its children must be, 0 too close to call
    int prefer(size_t c) const {
        if (R.cl[c].children.empty()) return 1;
        double a = stab[c], b = sum[c];
        if (a == b && (R.exact || std::isinf(a))) return 1;
        if (std::isinf(a) || std::isinf(b)) return a >= b ? 1 : -1;
        if (R.exact) return a >= b ? 1 : -1;
        if (fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b))) return 0;
        return a > b ? 1 : -1;
    }
    bool split() const { return !R.cl[0].children.empty(); }
};

static std::string check_flat(const Ref &R, const std::vector<long> &labels, LabelMap &m, bool *close_call = nullptr) {
    std::set<int> sel;
    for (size_t i = 0; i < R.n; i++) {
        if (labels[i] == 0) continue;
        auto it = m.l2r.find(labels[i]);
        if (it == m.l2r.end()) return pbt_msg("point ", i, " carries label ", labels[i], " which is no cluster of the hierarchy");
        sel.insert(it->second);
    }
    if (sel.count(0)) return "the root cluster was selected";
    FlatCheck f(R);
    // walk down from the root's children
    std::vector<int> todo(R.cl[0].children), chosen;
    std::set<int> left(sel);
    while (!todo.empty()) {
        int c = todo.back();
        todo.pop_back();
        int p = f.prefer((size_t)c);
        bool s = sel.count(c) != 0;
        if (p == 0 && close_call) *close_call = true;
        if (s) {
            if (p < 0) return pbt_msg("cluster of ", R.cl[(size_t)c].size, " points born at ", R.cl[(size_t)c].birth, " was selected with stability ", f.stab[(size_t)c], " although its descendants reach ", f.sum[(size_t)c]);
            left.erase(c);
            chosen.push_back(c);
        } else {
            if (p > 0) return pbt_msg("cluster of ", R.cl[(size_t)c].size, " points born at ", R.cl[(size_t)c].birth, " with stability ", f.stab[(size_t)c], " was not selected although its descendants only reach ", f.sum[(size_t)c]);
            for (int k : R.cl[(size_t)c].children) todo.push_back(k);
        }
    }
    if (!left.empty()) return "selected clusters overlap";
    std::vector<long> want(R.n, 0);
    for (int c : chosen) for (size_t p : R.cl[(size_t)c].members) want[p] = m.r2l[c];
    for (size_t i = 0; i < R.n; i++)
        if (labels[i] != want[i]) return pbt_msg("point ", i, " has label ", labels[i], ", its selected cluster is ", want[i]);
    return "";
}

// partition equality up to renaming (0 = noise stays noise)
static std::string same_partition(const std::vector<long> &a, const std::vector<long> &b) {
    std::map<long, long> f, g;
    for (size_t i = 0; i < a.size(); i++) {
        if ((a[i] == 0) != (b[i] == 0)) return pbt_msg("point ", i, ": label ", a[i], " vs ", b[i]);
        if (a[i] == 0) continue;
        if (!f.count(a[i])) f[a[i]] = b[i];
        if (!g.count(b[i])) g[b[i]] = a[i];
        if (f[a[i]] != b[i] || g[b[i]] != a[i]) return pbt_msg("point ", i, ": label ", a[i], " vs ", b[i], " breaks the correspondence");
    }
    return "";
}

// ---------------------------------------------------------------- running the library
struct Obj {
    hdbscan *sc = nullptr;
    explicit Obj(size_t minPts) { sc = hdbscan_init(NULL, (index_t)minPts); CHECK(sc != NULL, "hdbscan_init returned NULL"); }
    ~Obj() { if (sc) { hdbscan_destroy(sc); } }
    void destroy() { hdbscan_destroy(sc); sc = nullptr; }
    Obj(const Obj &) = delete;
};
static void run_ok(hdbscan *sc, const DS &d, std::vector<unsigned char> &b) {
    // exactly sized copy so that reads past the data set are seen
    int r = hdbscan_run(sc, b.data(), (index_t)d.rows, (index_t)d.cols, d.rowwise, (index_t)d.type);
    CHECK(r == HDBSCAN_SUCCESS, "hdbscan_run returned ", r);
    CHECK(sc->numPoints == d.n(), "numPoints is ", sc->numPoints, ", data set has ", d.n());
}
static Ref lib_reference(hdbscan *sc) {
    size_t n = sc->numPoints;
    return reference(n, sc->minPoints, [&](size_t i, size_t j) { return i == j ? 0.0 : (double)distance_get(&sc->distanceFunction, (index_t)i, (index_t)j); });
}
