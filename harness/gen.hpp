// Data set generator: every data set is generated as exact numbers representable in its element type.
#pragma once
#include "engine.hpp"
#include "hdbscan/hdbscan.hpp"
#ifdef _OPENMP
#include <omp.h>
#endif
#include <algorithm>
#include <cmath>
#include <climits>

static const char *const type_names[] = {"int", "double", "float", "long", "short", "char"};

struct DS {
    int type = H_DOUBLE;
    size_t rows = 0, cols = 1;     // as passed to the library
    int rowwise = 1;
    std::string kind;
    std::vector<long double> v;    // rows*cols exact values
    size_t n() const { return rowwise == 1 ? rows : rows * cols; }
    size_t dim() const { return rowwise == 1 ? cols : 1; }
    static size_t tsize(int t) {
        switch (t) { case H_DOUBLE: return 8; case H_FLOAT: return 4; case H_INT: return 4; case H_LONG: return 8; case H_SHORT: return 2; default: return 1; }
    }
    static void put(std::vector<unsigned char> &b, size_t i, int t, long double x) {
        switch (t) {
        case H_DOUBLE: { double y = (double)x; memcpy(&b[i * 8], &y, 8); break; }
        case H_FLOAT: { float y = (float)x; memcpy(&b[i * 4], &y, 4); break; }
        case H_INT: { int y = (int)x; memcpy(&b[i * 4], &y, 4); break; }
        case H_LONG: { long y = (long)x; memcpy(&b[i * 8], &y, 8); break; }
        case H_SHORT: { short y = (short)x; memcpy(&b[i * 2], &y, 2); break; }
        default: { char y = (char)x; memcpy(&b[i], &y, 1); break; }
        }
    }
    std::vector<unsigned char> bytes() const { return bytes_as(type); }
    std::vector<unsigned char> bytes_as(int t) const {
        std::vector<unsigned char> b(v.size() * tsize(t));
        for (size_t i = 0; i < v.size(); i++) put(b, i, t, v[i]);
        return b;
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(17);
        o << kind << " " << (type <= H_CHAR ? type_names[type] : "?") << " " << rows << "x" << cols << (rowwise == 1 ? "" : " rowwise=FALSE") << " [";
        for (size_t i = 0; i < v.size() && i < 120; i++) o << (i ? (i % cols ? "," : "; ") : "") << v[i];
        o << (v.size() > 120 ? "...]" : "]");
        return o.str();
    }
    long double dist(size_t a, size_t b) const {
        long double s = 0;
        size_t d = dim();
        for (size_t k = 0; k < d; k++) { long double x = v[a * d + k] - v[b * d + k]; s += x * x; }
        return sqrtl(s);
    }
};

struct GenOpt {
    size_t max_n = 60;       // typical upper bound
    bool types = true;       // all element types (else double only)
    bool wild = true;        // values whose differences are inexact or extreme
    bool rowwise0 = true;
    bool far = true;         // magnitudes up to 1e+-140 for double and 1e+-33 for float
    bool exact_only = false; // only kinds whose coordinates are small integers/dyadics
    size_t min_n = 1;
    bool big = false;        // mostly near max_n (which is then in the hundreds or thousands)
    void size(int scale, size_t small_n, size_t large_n, size_t huge_n, size_t giant_n = 0) { max_n = scale > 3 && giant_n ? giant_n : scale > 2 ? huge_n : scale > 1 ? large_n : small_n; big = scale > 2; }
};

static inline void type_limits(int t, long double &lo, long double &hi) {
    switch (t) {
    case H_INT: lo = INT_MIN; hi = INT_MAX; break;
    case H_LONG: lo = (long double)LONG_MIN; hi = (long double)LONG_MAX; break;
    case H_SHORT: lo = -32768; hi = 32767; break;
    case H_CHAR: lo = -128; hi = 127; break;
    default: lo = -1e9L; hi = 1e9L;
    }
}

static DS gen_dataset(pbt::Src &s, const GenOpt &o) {
    DS d;
    if (o.types) {
        static const int order[] = {H_DOUBLE, H_INT, H_FLOAT, H_SHORT, H_CHAR, H_LONG};
        d.type = order[s.freq({8, 4, 3, 3, 3, 3})];
    }
    bool isint = d.type != H_DOUBLE && d.type != H_FLOAT;
    int kind;
    if (o.exact_only) kind = (int)s.freq({4, 5, 3, 3, 2, 4, 0, 0, 0});
    else if (o.wild) kind = (int)s.freq({4, 5, 3, 3, 2, 4, 4, 2, 2});
    else kind = (int)s.freq({4, 5, 3, 3, 2, 4, 4, 0, 0});
    size_t n;
    switch (s.freq({3, 5, 6, 2})) {
    case 0: n = (size_t)s.range(1, 8); break;
    case 1: n = (size_t)s.range(5, 20); break;
    case 2: n = (size_t)s.range(10, (int64_t)std::max<size_t>(o.max_n * 2 / 3, 11)); break;
    default: n = (size_t)s.range((int64_t)std::min<size_t>(20, o.max_n), (int64_t)std::max<size_t>(o.max_n, 21)); break;
    }
    if (o.big) n = (size_t)s.range((int64_t)o.max_n / 4, (int64_t)o.max_n);
    if (n > o.max_n) n = o.max_n;
    if (n < o.min_n) n = o.min_n;
    size_t cols = (size_t)s.freq({50, 60, 30, 20, 10, 10, 9}) + 1;
    if (cols == 7) { // many columns
        cols = (size_t)(s.freq({3, 1}) ? s.range(7, 150) : s.range(7, 20));
        if (o.max_n <= 60) n = std::max<size_t>(o.min_n, std::min<size_t>(n, std::max<size_t>(3, 400 / cols)));
    }
    if (kind == 3 || kind == 4) cols = 1;
    bool rw0 = o.rowwise0 && s.freq({7, 1}) == 1;
    d.cols = cols; d.rows = n;
    std::vector<long double> &v = d.v;
    switch (kind) {
    case 0: { // small integer grid: many ties and duplicates
        d.kind = "grid";
        int64_t k = s.range(1, 12), off = s.freq({3, 1}) ? s.range(-20, 20) : 0;
        for (size_t i = 0; i < n * cols; i++) v.push_back((long double)(s.range(0, k) + off));
        break;
    }
    case 1: { // clusters of different densities, some noise
        d.kind = "clusters";
        int nc = (int)s.range(2, 6);
        bool many = n >= 60 && s.freq({3, 1}); // hundreds of clusters
        if (many) nc = (int)s.range(7, (int64_t)n / 2);
        std::vector<int64_t> ctr, spread;
        int64_t R = isint && d.type == H_CHAR ? 110 : isint && d.type == H_SHORT ? 3000 : 400;
        if (many && d.type != H_CHAR) R = d.type == H_SHORT ? 30000 : 100000;
        for (int c = 0; c < nc; c++) {
            for (size_t k = 0; k < cols; k++) ctr.push_back(s.range(0, R) - R / 2);
            static const int sp[] = {3, 1, 8, 0, 20};
            spread.push_back(sp[s.freq({4, 3, 3, 1, 2})]);
        }
        for (size_t i = 0; i < n; i++) {
            bool noise = s.freq({9, 1}) == 1;
            int c = (int)s.range(0, nc - 1);
            for (size_t k = 0; k < cols; k++) {
                int64_t x = noise ? s.range(0, R) - R / 2 : ctr[(size_t)c * cols + k] + s.range(0, 2 * spread[(size_t)c]) - spread[(size_t)c];
                if (d.type == H_CHAR) x = std::max<int64_t>(-128, std::min<int64_t>(127, x));
                v.push_back((long double)x);
            }
        }
        break;
    }
    case 2: { // few distinct points, many duplicates
        d.kind = "duplicates";
        size_t m = (size_t)s.range(1, (int64_t)std::max<size_t>(1, n / 2));
        std::vector<int64_t> pts;
        for (size_t i = 0; i < m * cols; i++) pts.push_back(s.range(0, 50));
        for (size_t i = 0; i < n; i++) {
            size_t p = (size_t)s.draw(m - 1);
            for (size_t k = 0; k < cols; k++) v.push_back((long double)pts[p * cols + k]);
        }
        break;
    }
    case 3: { // 1-D with power-of-two gaps, shuffled: nested clusters at exactly representable levels
        d.kind = "dyadic";
        int maxe = d.type == H_CHAR ? 3 : d.type == H_SHORT ? 8 : 10;
        std::vector<long double> xs;
        long double x = isint ? (d.type == H_CHAR ? -100 : 0) : 0, unit = isint ? 1 : 0.0625L;
        long double lo, hi; type_limits(d.type, lo, hi);
        for (size_t i = 0; i < n; i++) {
            xs.push_back(x);
            int e = (int)s.draw((uint64_t)maxe);
            int e2 = (int)s.draw((uint64_t)maxe);
            if (e2 < e) e = e2;
            long double nx = x + unit * (long double)(1 << e);
            if (nx <= hi) x = nx;
        }
        for (size_t i = n; i > 1; i--) std::swap(xs[i - 1], xs[(size_t)s.draw(i - 1)]);
        v = xs;
        break;
    }
    case 4: { // stability tie gadget: parent as stable as its two children together (or off by a few points)
        d.kind = "tie";
        int m = (int)s.range(3, 8);
        int k = 2 * m + (int)s.range(0, 2) - (s.coin() ? 0 : (int)s.range(0, 2));
        if (k < 0) k = 0;
        long double u = isint ? 4 : 1;
        // far away partner cluster so that the gadget has a parent to be born from
        std::vector<long double> xs;
        long double x = d.type == H_CHAR ? -128 : 0;
        int far = (int)s.range(2, 4);
        for (int i = 0; i < far; i++) { xs.push_back(x); x += u / 4; }
        x += u; 
        x -= u / 4;
        // gap of exactly u: birth level 1u; then the parent chain with .5u gaps holding k single points, two dense blocks
        for (int i = 0; i < m; i++) { xs.push_back(x); x += u / 4; }
        x += u / 4;
        for (int i = 0; i < k; i++) { xs.push_back(x); x += u / 2; }
        for (int i = 0; i < m; i++) { xs.push_back(x); x += u / 4; }
        if (s.freq({3, 1})) xs.push_back(x + u * 2);
        n = xs.size();
        d.rows = n;
        for (size_t i = n; i > 1; i--) std::swap(xs[i - 1], xs[(size_t)s.draw(i - 1)]);
        if (d.type == H_CHAR) for (auto &y : xs) y = std::min<long double>(y, 127);
        v = xs;
        break;
    }
    case 5: { // lattice: equal spacing, long chains of equal weights, with a few gaps
        d.kind = "lattice";
        int64_t step = s.range(1, 3);
        size_t side = (size_t)s.range(1, 6);
        for (size_t i = 0; i < n; i++)
            for (size_t k = 0; k < cols; k++) {
                int64_t x = cols == 1 ? (int64_t)i * step : k == 0 ? (int64_t)(i % side) * step : k == 1 ? (int64_t)(i / side) * step : 0;
                if (s.freq({11, 1})) x += s.range(0, 5);
                if (d.type == H_CHAR) x = (x + 128) % 256 - 128;
                v.push_back((long double)x);
            }
        break;
    }
    case 6: { // arbitrary values, almost surely without ties
        d.kind = "uniform";
        long double lo, hi; type_limits(d.type, lo, hi);
        int64_t R = d.type == H_CHAR ? 127 : d.type == H_SHORT ? 30000 : 1000000;
        for (size_t i = 0; i < n * cols; i++) {
            int64_t x = s.range(0, 2 * R) - R;
            if (isint) v.push_back((long double)x);
            else if (d.type == H_FLOAT) v.push_back((long double)((float)x / 1024.0f));
            else v.push_back((long double)((double)x / 1000.0));
        }
        break;
    }
    case 7: { // extremes of the type
        d.kind = "extreme";
        long double lo, hi; type_limits(d.type, lo, hi);
        int E = isint ? 30 : d.type == H_FLOAT ? 15 : 30;
        if (!isint && o.far && s.freq({2, 1}) == 1) E = d.type == H_FLOAT ? 33 : 140;
        int E0 = E > 30 && s.coin() ? (int)s.range(-E, E) : 0; // all of about one magnitude
        for (size_t i = 0; i < n * cols; i++) {
            long double x;
            if (!isint) { // wide magnitudes
                int e = E0 ? std::max(-E, std::min(E, E0 + (int)s.range(-4, 4))) : (int)s.range(-E, E);
                double m = (double)s.range(-1000, 1000) / 8;
                x = m * powl(10, e);
                x = d.type == H_FLOAT ? (long double)(float)x : (long double)(double)x;
            } else
                switch (s.freq({3, 3, 2, 2})) {
                case 0: x = lo + (long double)s.range(0, 3); break;
                case 1: x = hi - (long double)s.range(0, 3); break;
                case 2: x = (long double)s.range(0, 3) - 1; break;
                default: x = floorl(lo + (hi - lo) * ((long double)s.draw(1u << 30) / (long double)(1u << 30))); break;
                }
            if (isint) x = std::max(lo, std::min(hi, x));
            v.push_back(x);
        }
        break;
    }
    default: { // near ties: grid plus tiny perturbations
        d.kind = "nearties";
        for (size_t i = 0; i < n * cols; i++) {
            int64_t g = s.range(0, 8);
            int64_t p = s.freq({3, 1}) ? s.range(-3, 3) : 0;
            if (d.type == H_DOUBLE) v.push_back((long double)((double)g + (double)p * 1e-13));
            else if (d.type == H_FLOAT) v.push_back((long double)((float)g + (float)p * 1e-5f));
            else v.push_back((long double)(g * 5 + p));
        }
        break;
    }
    }
    if (rw0 && d.v.size() > 1) {
        // hand the flat data over as rows x cols with rowwise = FALSE: every element is a point
        d.rowwise = 0;
        size_t tot = d.v.size(), lim = std::max<size_t>(o.max_n, 20);
        if (tot > lim) { tot = lim; }
        std::vector<size_t> divs;
        for (size_t k = 1; k <= tot; k++) if (tot % k == 0) divs.push_back(k);
        size_t c = divs[(size_t)s.draw(divs.size() - 1)];
        d.cols = c; d.rows = tot / c;
        d.v.resize(tot);
        if (s.freq({6, 1})) d.rowwise = 2; // any value other than 1
    }
    return d;
}

static size_t gen_minpts(pbt::Src &s, size_t n, bool over = true) {
    size_t m;
    switch (s.freq({8, 4, 2, 1})) {
    case 0: m = (size_t)s.range(2, 5); break;
    case 1: m = (size_t)s.range(2, 10); break;
    case 2: m = (size_t)s.range(2, (int64_t)std::max<size_t>(2, n + (over ? 2 : 0))); break;
    default: m = n >= 2 ? n : 2; break;
    }
    if (!over && m > n) m = n;
    return m < 2 ? 2 : m;
}

static int gen_threads(pbt::Src &s) {
    int t = 1;
#ifdef _OPENMP
    t = 1 + s.freq({6, 2, 1, 1});
    omp_set_dynamic(0);
    omp_set_num_threads(t);
#else
    (void)s;
#endif
    return t;
}
