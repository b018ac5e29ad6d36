// C28 cluster objects against a direct model
#include "engine.hpp"
#include "hdbscan/hdbscan.hpp"
#include "hdbscan/constraint.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <set>
using namespace clustering;
namespace clustering { extern "C" constraint *constraint_init(constraint *, int, int, CONSTRAINT_TYPE) __attribute__((weak)); }

struct M { // model of one cluster
    label_t label; int parent; distance_t birth, death = 0; index_t points;
    bool children = false;
    distance_t stability = 0, prop_stability = 0, low = D_MAX;
    index_t cons = 0, prop_cons = 0;
    bool noise_rec = true; std::set<index_t> noise;
    std::vector<int> desc;
    bool propagated = false;
    cluster *c = nullptr;
    distance_t mag = 0, prop_mag = 0; // sums of the absolute values of the terms
};
static bool near_(distance_t a, distance_t b, distance_t mag = 0) { if (std::isinf(a) || std::isinf(b)) return a == b; return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) || std::fabs(a - b) <= 1e-12 * mag || (std::isnan(a) && std::isnan(b)); }

PROP(C28) {
    long base = pbt::live_allocs();
    {
    std::vector<M> m;
    auto state = [&](int i, const char *when) {
        M &x = m[i]; cluster *c = x.c;
        CHECK(c->label == x.label, when, ": label of cluster ", i, " is ", c->label, ", expected ", x.label);
        CHECK(c->numPoints == x.points, when, ": cluster ", x.label, " has ", c->numPoints, " points, expected ", x.points);
        CHECK(near_(c->birthLevel, x.birth), when, ": birth level of cluster ", x.label, " is ", c->birthLevel);
        CHECK(c->deathLevel == x.death, when, ": death level of cluster ", x.label, " is ", c->deathLevel, ", expected ", x.death);
        CHECK(near_(c->stability, x.stability, x.mag), when, ": stability of cluster ", x.label, " is ", c->stability, ", expected ", x.stability);
        CHECK(near_(c->propagatedStability, x.prop_stability, x.prop_mag), when, ": propagated stability of cluster ", x.label, " is ", c->propagatedStability, ", expected ", x.prop_stability);
        CHECK(c->propagatedLowestChildDeathLevel == x.low, when, ": lowest death level of cluster ", x.label, " is ", c->propagatedLowestChildDeathLevel, ", expected ", x.low);
        CHECK(c->numConstraintsSatisfied == x.cons && c->propagatedNumConstraintsSatisfied == x.prop_cons, when, ": constraints of cluster ", x.label, " are ", c->numConstraintsSatisfied, ", ", c->propagatedNumConstraintsSatisfied, ", expected ", x.cons, ", ", x.prop_cons);
        CHECK((c->hasChildren != 0) == x.children, when, ": child flag of cluster ", x.label, " is ", c->hasChildren);
        CHECK(c->parent == (x.parent < 0 ? NULL : m[x.parent].c), when, ": parent of cluster ", x.label);
        CHECK((c->virtualChildCluster != NULL) == x.noise_rec, when, ": noise record of cluster ", x.label);
        if (x.noise_rec) {
            CHECK(set_size(c->virtualChildCluster) == x.noise.size(), when, ": cluster ", x.label, " records ", set_size(c->virtualChildCluster), " noise points, expected ", x.noise.size());
            size_t k = 0;
            for (index_t p : x.noise) CHECK(((index_t *)c->virtualChildCluster->data)[k++] == p, when, ": noise points of cluster ", x.label);
        }
        CHECK(array_list_size(c->propagatedDescendants) == x.desc.size(), when, ": cluster ", x.label, " has ", array_list_size(c->propagatedDescendants), " propagated descendants, expected ", x.desc.size());
        for (size_t k = 0; k < x.desc.size(); k++) CHECK(((cluster **)c->propagatedDescendants->data)[k] == m[x.desc[k]].c, when, ": propagated descendant ", k, " of cluster ", x.label);
    };
    auto all = [&](const char *when) { for (size_t i = 0; i < m.size(); i++) state((int)i, when); };
    auto create = [&](int parent, label_t label, distance_t birth, index_t points) {
        M x; x.label = label; x.parent = parent; x.birth = birth; x.points = points;
        cluster *into = s.freq({3, 1}) ? (cluster *)malloc(sizeof(cluster)) : NULL;
        if (into) memset(into, 0xa5, sizeof(cluster));
        x.c = cluster_init(into, label, parent < 0 ? NULL : m[parent].c, birth, points);
        CHECK(x.c && (!into || x.c == into), "no cluster created");
        if (parent >= 0) m[parent].children = true;
        m.push_back(x);
        c.sample += pbt_msg("; new ", label, " under ", parent < 0 ? 0 : m[parent].label, " birth ", birth, " points ", points);
    };
    // coarse numbers give ties of stability; levels are powers of two or small fractions
    bool ties = s.coin();
    auto level = [&]() -> distance_t { return ties ? ldexp(1.0, (int)s.range(-3, 3)) : (distance_t)s.range(1, 1000) / 37; };
    auto points = [&]() -> index_t { return (index_t)(s.freq({5, 1}) ? s.range(1, 1000000) : s.range(1, 100)); };
    bool zeros = s.freq({2, 1}) == 1; // points that leave at level 0 make a stability infinite
    bool far_labels = s.freq({2, 1}) == 1; // labels anywhere in the label type, in no order
    std::set<label_t> used{1};
    auto fresh = [&]() -> label_t {
        label_t l = (label_t)(m.size() + 1);
        if (far_labels) {
            switch (s.draw(2)) {
            case 0: l = (label_t)s.range(2, std::numeric_limits<label_t>::max()); break;
            case 1: l = (label_t)((1ll << s.range(1, 30)) + s.range(-1, 1)); break;
            default: l = m[s.draw(m.size() - 1)].label; l = (label_t)(l > 70000 ? l - 65536 : l + 65536 * (label_t)s.range(1, 3)); break;
            }
        }
        while (!used.insert(l).second || l < 1) l = (label_t)(l >= std::numeric_limits<label_t>::max() - 1 ? 2 : l + 1);
        return l;
    };
    size_t most = c.scale > 2 ? 300 : c.scale > 1 ? 60 : 25;
    int nops = (int)s.range(3, c.scale > 2 ? 1500 : c.scale > 1 ? 120 : 45);
    create(-1, 1, s.coin() ? (distance_t)NAN : level(), points());
    int detached = 0, over = 0, noise = 0;
    for (int t = 0; t < nops; t++) {
        int i = (int)s.draw(m.size() - 1);
        M &x = m[i];
        switch (s.freq({4, 5, 3, 2, 2, 1, 2})) {
        case 0: if (m.size() < most) create(s.freq({3, 1}) ? (int)m.size() - 1 : i, fresh(), level(), points()); break;
        case 1: {
            index_t k = (index_t)(s.freq({3, 1}) ? x.points : s.range(0, x.points));
            if (s.freq({8, 1})) k = (index_t)(x.points + (index_t)s.range(1, 3));
            distance_t l = zeros && k >= 1 && s.coin() ? 0 : level();
            c.sample += pbt_msg("; detach ", k, " of ", x.points, " from ", x.label, " at ", l);
            if (k > x.points) pbt::capture_begin();
            int r = cluster_detach_points(x.c, k, l);
            if (k > x.points) {
                pbt::capture_end();
                CHECK(r == CLUSTER_ERROR, "detaching ", k, " of ", x.points, " points returned ", r);
                over++;
                break;
            }
            CHECK(r == CLUSTER_SUCCESS, "detaching ", k, " of ", x.points, " points returned ", r);
            x.points = (index_t)(x.points - k);
            x.stability += k * (1 / l - 1 / x.birth);
            if (!std::isnan(x.birth)) x.mag += k * (1 / l + 1 / x.birth);
            if (x.points == 0) x.death = l;
            detached++;
            break;
        }
        case 2: {
            if (!x.noise_rec) break;
            set_t *p = set_init(sizeof(index_t), int_compare);
            bool wide = s.freq({5, 1}) == 1;
            int k = (int)s.range(0, wide ? 60 : 6);
            for (int q = 0; q < k; q++) { index_t v = (index_t)s.draw(wide ? 5000 : 15); set_insert(p, &v); x.noise.insert(v); }
            c.sample += pbt_msg("; noise of ", x.label, " +", set_size(p));
            size_t before = set_size(p);
            CHECK(cluster_add_points_to_virtual_child_cluster(x.c, p) == 1, "noise points not added");
            CHECK(set_size(p) == before, "the given set changed");
            set_delete(p);
            noise++;
            break;
        }
        case 3: { index_t k = (index_t)(s.freq({8, 1}) ? s.draw(100000) : s.draw(3)); x.cons = (index_t)(x.cons + k); cluster_add_constraints_satisfied(x.c, k); c.sample += pbt_msg("; constraints of ", x.label, " +", k); break; }
        case 4: { index_t k = (index_t)(s.freq({8, 1}) ? s.draw(100000) : s.draw(3)); x.prop_cons = (index_t)(x.prop_cons + k); cluster_add_virtual_child_constraints_satisfied(x.c, k); c.sample += pbt_msg("; noise constraints of ", x.label, " +", k); break; }
        case 5: if (x.noise_rec) { x.noise_rec = false; x.noise.clear(); long a = pbt::live_allocs(); cluster_release_virtual_child(x.c); CHECK(pbt::live_allocs() < a, "the noise record of ", x.label, " was not freed"); c.sample += pbt_msg("; release noise of ", x.label); }
                else cluster_release_virtual_child(x.c);
                break;
        case 6: if (x.noise_rec) for (index_t q = 0; q < 18; q++) CHECK((cluster_virtual_child_contains_point(x.c, q) != 0) == (x.noise.count(q) != 0), "noise membership of ", q, " in ", x.label); break;
        }
        all("after an operation");
    }
    // propagation from the leaves up, as the clustering does it
    int self_n = 0, desc_n = 0, tie_n = 0;
    std::vector<int> order;
    for (int i = (int)m.size() - 1; i >= 0; i--) order.push_back(i);
    for (int i : order) {
        M &x = m[i];
        // constraint totals are made to meet now and then
        if (s.freq({2, 1}) && x.children) {
            if (x.cons < x.prop_cons) { index_t k = (index_t)(x.prop_cons - x.cons); cluster_add_constraints_satisfied(x.c, k); x.cons = x.prop_cons; }
            if (x.prop_cons < x.cons) { index_t k = (index_t)(x.cons - x.prop_cons); cluster_add_virtual_child_constraints_satisfied(x.c, k); x.prop_cons = x.cons; }
        }
        c.sample += pbt_msg("; propagate ", x.label);
        cluster_propagate(x.c);
        if (x.low == D_MAX) x.low = x.death;
        if (x.parent >= 0) {
            M &p = m[x.parent];
            p.low = std::min(p.low, x.low);
            distance_t sa = x.c->stability, sb = x.c->propagatedStability; // compared as the library holds them, checked below
            bool tie = x.cons == x.prop_cons;
            bool self = !x.children || x.cons > x.prop_cons || (tie && sa >= sb);
            if (x.children && tie) tie_n++;
            if (x.children && tie && std::isinf(sa) && std::isinf(sb)) c.classify("both stabilities infinite");
            if (self) { p.prop_cons = (index_t)(p.prop_cons + x.cons); p.prop_stability += sa; p.prop_mag += x.mag; p.desc.push_back(i); self_n++; }
            else { p.prop_cons = (index_t)(p.prop_cons + x.prop_cons); p.prop_stability += sb; p.prop_mag += x.prop_mag; p.desc.insert(p.desc.end(), x.desc.begin(), x.desc.end()); desc_n++; }
        }
        all("after propagation");
    }
    for (size_t i = 0; i + 1 < m.size(); i++) {
        const cluster *a = m[i].c, *b = m[i + 1].c;
        bool up = a->label < b->label;
        CHECK((up ? cluster_compare(a, b) < 0 : cluster_compare(a, b) > 0) && (up ? cluster_compare(b, a) > 0 : cluster_compare(b, a) < 0) && cluster_compare(a, a) == 0, "order of the labels ", a->label, ", ", b->label);
    }
    for (int q = 0; q < 4; q++) {
        const M &x = m[s.draw(m.size() - 1)], &y = m[s.draw(m.size() - 1)];
        int r = cluster_compare(x.c, y.c), w = x.label < y.label ? -1 : x.label > y.label;
        CHECK((r > 0) - (r < 0) == w, "order of the labels ", x.label, ", ", y.label, " is ", r);
    }
    CHECK(cluster_compare(NULL, m[0].c) < 0 && cluster_compare(m[0].c, NULL) > 0, "order with no cluster");
    // destroy in any order; the others stay intact
    while (!m.empty()) {
        size_t i = (size_t)s.draw(m.size() - 1);
        cluster_destroy(m[i].c);
        m.erase(m.begin() + i);
        for (auto &x : m) CHECK(x.c->label == x.label && x.c->numPoints == x.points, "destroying a cluster changed another");
    }
    cluster_destroy(NULL);
    CHECK(constraint_init, "constraint_init is declared and not defined");
    int ct = (int)s.draw(2);
    int pa = (int)s.range(-5, 1000000), pb = (int)s.range(-5, 1000000);
    constraint *k = constraint_init(NULL, pa, pb, (CONSTRAINT_TYPE)ct), *st = (constraint *)malloc(sizeof(constraint));
    CHECK(k && k->pointA == pa && k->pointB == pb && k->type == (CONSTRAINT_TYPE)ct, "constraint fields");
    CHECK(constraint_init(st, pb, pa, (CONSTRAINT_TYPE)ct) == st && st->pointA == pb && st->pointB == pa && st->type == (CONSTRAINT_TYPE)ct, "constraint fields in place");
    constraint_destroy(k); constraint_destroy(st);
    constraint_destroy(NULL);
    c.nontrivial(self_n + desc_n >= 3 && detached >= 1);
    c.classify("descendants propagated", desc_n > 0);
    c.classify("equal constraints", tie_n > 0);
    c.classify("too many points detached", over > 0);
    c.classify("noise recorded", noise > 0);
    c.classify("labels far apart", far_labels);
    }
    CHECK(pbt::live_allocs() == base, "memory not released: ", pbt::live_allocs() - base);
}
