// C23 undirected graph
#include "engine.hpp"
#include "hdbscan/hdbscan.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
using namespace clustering;

typedef std::tuple<index_t, index_t, distance_t> Edge;

static std::vector<Edge> edges_of(UndirectedGraph *g) {
    std::vector<Edge> e;
    CHECK(g->verticesA->size == g->verticesB->size && g->verticesA->size == g->edgeWeights->size, "the edge lists have different lengths");
    for (size_t i = 0; i < g->verticesA->size; i++) e.emplace_back(((index_t *)g->verticesA->data)[i], ((index_t *)g->verticesB->data)[i], ((distance_t *)g->edgeWeights->data)[i]);
    return e;
}
static std::vector<std::multiset<index_t>> adjacency(UndirectedGraph *g) {
    std::vector<std::multiset<index_t>> a(g->numVertices);
    for (index_t i = 0; i < g->numVertices; i++)
        for (size_t k = 0; k < g->edges[i]->size; k++) a[i].insert(((index_t *)g->edges[i]->data)[k]);
    return a;
}
static std::string show(const std::multiset<index_t> &m) { std::ostringstream o; for (auto x : m) o << x << " "; return o.str(); }

PROP(C23) {
    long base = pbt::live_allocs();
    {
    size_t nv = (size_t)(s.coin() ? s.range(1, 8) : s.range(1, c.scale > 2 ? 3000 : c.scale > 1 ? 300 : 60));
    size_t ne = (size_t)(s.freq({1, 3}) == 0 ? s.range(0, 6) : s.range(0, c.scale > 2 ? 8000 : c.scale > 1 ? 700 : 120));
    int wk = s.freq({3, 2, 2, 1, 1, 1}); // few values, small integers, reals, ascending, descending, bad for a quicksort on the first element
    int shape = s.freq({4, 1, 1}); // random, star, path
    std::vector<Edge> e;
    for (size_t i = 0; i < ne; i++) {
        index_t a, b;
        if (shape == 1) { a = 0; b = (index_t)(i % nv); }
        else if (shape == 2) { a = (index_t)(i % nv); b = (index_t)((i + 1) % nv); }
        else { a = (index_t)s.draw(nv - 1); b = s.freq({5, 1}) ? a : (index_t)s.draw(nv - 1); }
        distance_t w;
        switch (wk) {
        case 0: w = (distance_t)s.draw(2); break;
        case 1: w = (distance_t)s.range(-5, 20); break;
        case 2: w = (distance_t)s.draw(UINT64_MAX) * 1e-15; break;
        case 3: w = (distance_t)i + (distance_t)s.draw(1); break;
        case 4: w = (distance_t)(ne - i) - (distance_t)s.draw(1); break;
        default: w = (distance_t)i;
        }
        e.emplace_back(a, b, w);
    }
    if (wk == 5) { // undo the partitions of sorted weights so that each splits off a small part: many parts wait at a time
        size_t small = (size_t)s.range(0, 4);
        bool left = s.coin();
        for (size_t len = 2 + small; len <= ne; len += small + 1) {
            size_t lo = left ? ne - len : 0, hi = left ? ne - 1 : len - 1, p = left ? lo + small : hi - small;
            std::swap(std::get<2>(e[p]), std::get<2>(e[hi]));
            std::swap(std::get<2>(e[lo]), std::get<2>(e[hi]));
        }
    }
    std::ostringstream o;
    o << nv << " vertices, edges";
    for (size_t i = 0; i < e.size() && i < 60; i++) o << " " << std::get<0>(e[i]) << "-" << std::get<1>(e[i]) << ":" << std::get<2>(e[i]);
    c.sample = o.str();
    auto mk = [&](UndirectedGraph *into) {
        ArrayList *A = array_list_init(ne ? ne : 1, sizeof(index_t), int_compare), *B = array_list_init(ne ? ne : 1, sizeof(index_t), int_compare), *W = array_list_init(ne ? ne : 1, sizeof(distance_t), double_compare);
        for (auto &x : e) { index_t a = std::get<0>(x), b = std::get<1>(x); distance_t w = std::get<2>(x); array_list_append(A, &a); array_list_append(B, &b); array_list_append(W, &w); }
        UndirectedGraph *g = graph_init(into, (index_t)nv, A, B, W);
        CHECK(g && (!into || g == into) && g->numVertices == nv, "the graph was not built");
        return g;
    };
    std::vector<std::multiset<index_t>> want(nv);
    bool self = false, par = false;
    std::set<std::pair<index_t, index_t>> seen;
    for (auto &x : e) {
        index_t a = std::get<0>(x), b = std::get<1>(x);
        want[a].insert(b);
        if (a != b) want[b].insert(a); else self = true;
        par |= !seen.insert({std::min(a, b), std::max(a, b)}).second;
    }
    auto adj_ok = [&](UndirectedGraph *g, const char *when) {
        auto got = adjacency(g);
        for (size_t i = 0; i < nv; i++) CHECK(got[i] == want[i], when, ": vertex ", i, " has the neighbours ", show(got[i]), "expected ", show(want[i]));
    };
    bool cpp = s.freq({3, 1}) == 1;
    UndirectedGraph obj;
    UndirectedGraph *g = mk(cpp ? &obj : NULL);
    CHECK(edges_of(g) == e, "the edges differ from those given");
    adj_ok(g, "built");
    auto removals = [&](const char *when) {
        int k = (int)s.range(0, 12);
        for (int i = 0; i < k; i++) {
            index_t a = (index_t)s.draw(nv - 1), b = (index_t)s.draw(nv - 1);
            if (!want[a].empty() && s.freq({1, 5})) { auto it = want[a].begin(); std::advance(it, (long)s.draw(want[a].size() - 1)); b = *it; }
            c.sample += pbt_msg("; remove ", a, "-", b);
            auto it = want[a].find(b);
            if (it != want[a].end()) { want[a].erase(it); if (a != b) want[b].erase(want[b].find(a)); }
            graph_remove_edge(g, a, b);
            adj_ok(g, when);
        }
    };
    if (s.coin()) removals("edge removed before sorting");
    auto before = edges_of(g);
    bool rec = s.coin();
    c.sample += rec ? "; sort (recursive)" : "; sort";
    if (rec) { if (ne) graph_quicksort(g, 0, (int64_t)ne - 1); }
    else graph_quicksort_by_edge_weight(g);
    auto after = edges_of(g);
    for (size_t i = 1; i < after.size(); i++) CHECK(std::get<2>(after[i - 1]) <= std::get<2>(after[i]), "weights out of order at ", i, ": ", std::get<2>(after[i - 1]), ", ", std::get<2>(after[i]));
    std::sort(before.begin(), before.end());
    auto sorted = after;
    std::sort(sorted.begin(), sorted.end());
    CHECK(before == sorted, "sorting changed the edges");
    adj_ok(g, "sorted");
    // a part of the edges only
    if (rec && ne > 2 && s.coin()) {
        UndirectedGraph *h = mk(NULL);
        size_t lo = (size_t)s.draw(ne - 1), hi = lo + (size_t)s.draw(ne - 1 - lo);
        graph_quicksort(h, (int64_t)lo, (int64_t)hi);
        auto p = edges_of(h);
        for (size_t i = 0; i < ne; i++) if (i < lo || i > hi) CHECK(p[i] == e[i], "sorting [", lo, ", ", hi, "] changed edge ", i);
        for (size_t i = lo + 1; i <= hi; i++) CHECK(std::get<2>(p[i - 1]) <= std::get<2>(p[i]), "part [", lo, ", ", hi, "] out of order at ", i);
        auto x = e; std::sort(x.begin(), x.end()); std::sort(p.begin(), p.end());
        CHECK(p == x, "sorting a part changed the edges");
        graph_destroy(h);
    }
    removals("edge removed");
    CHECK(edges_of(g) == after, "removing edges changed the edge lists");
    if (cpp) { graph_clean(g); CHECK(!g->edges && !g->verticesA && !g->verticesB && !g->edgeWeights, "clean leaves lists behind"); if (s.coin()) { mk(&obj); } }
    else graph_destroy(g);
    c.nontrivial(ne >= 4);
    c.classify("self edges", self); c.classify("parallel edges", par);
    }
    CHECK(pbt::live_allocs() == base, "memory not released: ", pbt::live_allocs() - base);
}
