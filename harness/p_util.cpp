// C21 prime helpers, C22 comparators, hashes and size helpers
#include "engine.hpp"
#include "collections/primes.h"
#include "collections/hashtable.h"
#include "hdbscan/utils.h"
#include <algorithm>
#include <limits>

static uint64_t powmod(uint64_t a, uint64_t e, uint64_t m) {
    uint64_t r = 1; a %= m;
    for (; e; e >>= 1) { if (e & 1) r = (uint64_t)((unsigned __int128)r * a % m); a = (uint64_t)((unsigned __int128)a * a % m); }
    return r;
}
static bool ref_prime(uint64_t n) { // deterministic Miller-Rabin below 2^32
    if (n < 2) return false;
    for (uint64_t p : {2, 3, 5, 7, 11, 13, 61}) { if (n == p) return true; if (n % p == 0) return false; }
    uint64_t d = n - 1; int r = 0;
    while (!(d & 1)) { d >>= 1; r++; }
    for (uint64_t a : {2, 7, 61}) {
        uint64_t x = powmod(a, d, n);
        if (x == 1 || x == n - 1) continue;
        bool ok = false;
        for (int i = 1; i < r && !ok; i++) { x = (uint64_t)((unsigned __int128)x * x % n); ok = x == n - 1; }
        if (!ok) return false;
    }
    return true;
}
static const std::vector<int32_t> &sieve() { // largest prime below i
    static std::vector<int32_t> below;
    if (below.empty()) {
        const int N = 1 << 20;
        std::vector<char> comp(N, 0);
        below.assign(N, 3);
        int last = 3;
        for (int i = 2; i < N; i++) {
            below[i] = last;
            if (!comp[i]) { if (i > 3) last = i; for (long j = (long)i * i; j < N; j += i) comp[j] = 1; }
        }
    }
    return below;
}
static const std::vector<int32_t> &sieve_now = sieve();
static int32_t ref_below(int32_t n) {
    if (n <= 3) return 3;
    if (n < 1 << 20) return sieve()[n];
    int32_t p = n - 1;
    while (!ref_prime((uint64_t)p)) p--;
    return p;
}
static int32_t gen_int(pbt::Src &s) {
    switch (s.freq({4, 3, 2, 2, 1})) {
    case 0: return (int32_t)s.range(-5, 400);
    case 1: return (int32_t)s.range(0, 1 << 20);
    case 2: return (int32_t)s.range(0, INT32_MAX);
    case 3: { // around a square or a product of two close primes
        int64_t r = s.range(2, 46340), v = r * r + s.range(-3, 3);
        return (int32_t)std::min<int64_t>(v, INT32_MAX);
    }
    default: return s.coin() ? (int32_t)(INT32_MAX - (int32_t)s.draw(60)) : (int32_t)(INT32_MIN + (int32_t)s.draw(60));
    }
}

PROP(C21) {
    switch (s.freq({6, 2, 3, 1})) {
    case 0: { // a window of consecutive arguments
        int32_t a = gen_int(s); int len = (int)s.range(1, a > 1 << 24 ? 3 : 40);
        if (a > INT32_MAX - len) a = INT32_MAX - len;
        c.sample = pbt_msg("primes below ", a, " to ", a + len);
        for (int i = 0; i <= len; i++) {
            int32_t r = find_prime_less_than(a + i), w = ref_below(a + i);
            CHECK(r == w, "largest prime below ", a + i, " is ", w, ", got ", r);
        }
        c.nontrivial(a > 3);
        c.classify("window");
        break;
    }
    case 1: {
        int32_t a = gen_int(s);
        if (a > INT32_MAX - 1) a = INT32_MAX - 1;
        if (a < -1000) a = -1000; // the helper counts up one by one
        c.sample = pbt_msg("prime above ", a);
        int32_t r = get_prime(a);
        CHECK(r > a && ref_prime((uint64_t)r), "get_prime(", a, ") = ", r, " is not a prime above it");
        for (int64_t i = std::max<int64_t>((int64_t)a + 1, 2); i < r; i++) CHECK(!ref_prime((uint64_t)i), "get_prime(", a, ") = ", r, " skips ", i);
        c.nontrivial(a > 3);
        c.classify("next prime");
        break;
    }
    case 2: { // primes themselves and their neighbours
        int32_t a = gen_int(s);
        int32_t p = ref_below(a);
        c.sample = pbt_msg("around the prime ", p);
        CHECK(find_prime_less_than(p + 1) == p, "below ", p + 1, ": ", find_prime_less_than(p + 1));
        CHECK(find_prime_less_than(p) == ref_below(p), "below ", p, ": ", find_prime_less_than(p));
        if (p < INT32_MAX - 1) CHECK(find_prime_less_than(p + 2) == ref_below(p + 2), "below ", p + 2, ": ", find_prime_less_than(p + 2));
        c.nontrivial(p > 3);
        c.classify("prime");
        break;
    }
    default: { // table sizes
        size_t b = (size_t)(s.coin() ? s.range(3, 2000) : s.range(3, 200000));
        c.sample = pbt_msg("table of ", b);
        hashtable *h = hashtable_init(b, H_LONG, H_LONG, long_compare);
        CHECK(h, "no table of ", b, " buckets");
        CHECK(h->buckets == (size_t)ref_below((int32_t)b), "a table of ", b, " got ", h->buckets, " buckets");
        for (int i = 0; i < 5; i++) { long k = (long)s.draw(UINT64_MAX), v = i; CHECK(hashtable_insert(h, &k, &v) != 0, "insert"); long q = -1; CHECK(hashtable_lookup(h, &k, &q) == 1 && q == i, "look-up of ", k); }
        hashtable_destroy(h, NULL, NULL);
        c.nontrivial();
        c.classify("table");
    }
    }
}

typedef int32_t (*Cmp)(const void *, const void *);
static int sgn(int x) { return (x > 0) - (x < 0); }
template <class T> static std::string sh(T v) { std::ostringstream o; o.precision(20); if (sizeof(T) == 1) o << (int)v; else o << v; return o.str(); }

template <class T> static T gen_val(pbt::Src &s, std::vector<T> &prev) {
    if (!prev.empty() && s.freq({4, 1})) {
        T x = prev[s.draw(prev.size() - 1)];
        return s.coin() || x >= std::numeric_limits<T>::max() ? x : (T)(x + 1);
    }
    T r;
    switch (s.freq({3, 2, 2})) {
    case 0: r = (T)s.range(-9, 9); break;
    case 1: {
        const T ex[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), (T)(std::numeric_limits<T>::max() - 1), (T)0, (T)-1};
        r = ex[s.draw(5)];
        break;
    }
    default: { uint64_t w = s.draw(UINT64_MAX); if (std::numeric_limits<T>::is_integer) r = (T)w; else r = (T)((double)(int64_t)w * (s.coin() ? 1e-18 : 1e-3)); }
    }
    prev.push_back(r);
    return r;
}
template <class T> static T fl(pbt::Src &s, T x) { // fractions and special values for the floating point types
    if (std::numeric_limits<T>::is_integer) return x;
    switch (s.freq({6, 2, 1, 1})) {
    case 1: return (T)(x * (T)0.125);
    case 2: return std::numeric_limits<T>::infinity() * (T)(s.coin() ? 1 : -1);
    case 3: return (T)(s.coin() ? 0.0 : -0.0);
    default: return x;
    }
}
template <class T> static void cmp_prop(pbt::Src &s, pbt::Ctx &c, const char *name, Cmp f, Cmp fp) {
    std::vector<T> prev, v;
    int n = (int)s.range(2, 6);
    std::string d = std::string(name) + ":";
    for (int i = 0; i < n; i++) { v.push_back(fl(s, gen_val<T>(s, prev))); d += " " + sh(v.back()); }
    c.sample = d;
    bool lt = false, eq = false;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            T a = v[i], b = v[j];
            int want = a < b ? -1 : a > b ? 1 : 0;
            int r = f(&a, &b);
            CHECK(sgn(r) == want, name, "_compare(", sh(a), ", ", sh(b), ") = ", r);
            CHECK(sgn(f(&b, &a)) == -sgn(r), name, "_compare is not antisymmetric");
            if (fp) {
                T *pa = &a, *pb = &b;
                int q = fp(&pa, &pb);
                CHECK(sgn(q) == want, name, "_ptr_compare(", sh(a), ", ", sh(b), ") = ", q);
            }
            lt |= want != 0; eq |= want == 0 && i != j;
        }
    // sorting with the comparator
    std::vector<T> q = v, w = v;
    qsort(q.data(), q.size(), sizeof(T), f);
    std::sort(w.begin(), w.end());
    for (int i = 0; i < n; i++) CHECK(q[i] == w[i], "sorting by ", name, "_compare: element ", i, " is ", sh(q[i]));
    c.nontrivial(lt);
    c.classify("equal values", eq);
}
template <class T> static void hash_prop(pbt::Src &s, pbt::Ctx &c, const char *name, size_t (*f)(void *, size_t), Cmp cmp) {
    std::vector<T> prev;
    size_t b = (size_t)(s.coin() ? s.range(1, 12) : s.coin() ? s.range(1, 100000) : s.range(1, INT64_MAX));
    std::string d = pbt_msg(name, " hash, ", b, " buckets:");
    std::vector<T> v;
    std::vector<size_t> hs;
    int n = (int)s.range(1, 6);
    for (int i = 0; i < n; i++) {
        T x = gen_val<T>(s, prev);
        if (!std::numeric_limits<T>::is_integer && s.coin()) x = (T)(x * (T)0.125);
        if (!std::numeric_limits<T>::is_integer && s.freq({5, 1})) x = (T)(s.coin() ? 0.0 : -0.0);
        d += " " + sh(x);
        T y = x;
        size_t h = f(&x, b), h2 = f(&y, b);
        CHECK(x == y, name, "_hash changed its key");
        CHECK(h < b, name, "_hash(", sh(x), ", ", b, ") = ", h);
        CHECK(h == h2, name, "_hash gives ", h, " and ", h2, " for ", sh(x));
        for (size_t j = 0; j < v.size(); j++) if (cmp(&v[j], &x) == 0) CHECK(hs[j] == h, name, "_hash differs for the equal keys ", sh(x), " and ", sh(v[j]));
        v.push_back(x); hs.push_back(h);
    }
    c.sample = d;
    c.nontrivial(b > 1);
}

PROP(C22) {
    int k = s.freq({3, 3, 2, 1, 1});
    c.classify(k == 0 ? "comparator" : k == 1 ? "hash" : k == 2 ? "string hash" : k == 3 ? "power of two" : "sizes and triangle numbers");
    if (k == 0) {
        switch (s.draw(6)) {
        case 0: cmp_prop<int32_t>(s, c, "int", int_compare, int_ptr_compare); break;
        case 1: cmp_prop<double>(s, c, "double", double_compare, double_ptr_compare); break;
        case 2: cmp_prop<float>(s, c, "float", float_compare, float_ptr_compare); break;
        case 3: cmp_prop<long>(s, c, "long", long_compare, long_ptr_compare); break;
        case 4: cmp_prop<short>(s, c, "short", short_compare, short_ptr_compare); break;
        case 5: cmp_prop<char>(s, c, "char", char_compare, char_ptr_compare); break;
        default: {
            static char pool[64];
            int n = (int)s.range(2, 5), v[5];
            for (int i = 0; i < n; i++) v[i] = (int)s.range(0, 63);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
                void *a = pool + v[i], *b = pool + v[j];
                CHECK(sgn(ptr_compare(&a, &b)) == (v[i] > v[j]) - (v[i] < v[j]), "ptr_compare at offsets ", v[i], ", ", v[j]);
            }
            uintptr_t hi = (uintptr_t)1 << 63, lo = 1; // addresses of both halves
            void *a = (void *)hi, *b = (void *)lo;
            CHECK(ptr_compare(&a, &b) > 0 && ptr_compare(&b, &a) < 0 && ptr_compare(&a, &a) == 0, "ptr_compare of far addresses");
            c.sample = "pointers"; c.nontrivial();
        }
        }
    } else if (k == 1) {
        switch (s.draw(5)) {
        case 0: hash_prop<int32_t>(s, c, "int", int_hash, int_compare); break;
        case 1: hash_prop<long>(s, c, "long", long_hash, long_compare); break;
        case 2: hash_prop<short>(s, c, "short", short_hash, short_compare); break;
        case 3: hash_prop<char>(s, c, "char", char_hash, char_compare); break;
        case 4: hash_prop<double>(s, c, "double", double_hash, double_compare); break;
        default: hash_prop<float>(s, c, "float", float_hash, float_compare); break;
        }
    } else if (k == 2) {
        size_t len = (size_t)s.range(0, s.coin() ? 8 : s.freq({3, 1}) ? 600 : 60), b = (size_t)(s.coin() ? s.range(1, 50) : s.range(1, 1 << 30));
        std::string t;
        bool high = s.coin();
        for (size_t i = 0; i < len; i++) t += (char)(high ? 1 + s.draw(254) : 'a' + s.draw(25));
        c.sample = pbt_msg("string of ", len, ", ", b, " buckets");
        size_t ox = (size_t)s.draw(8), oy = (size_t)s.draw(8); // equal strings at differently aligned addresses
        char *bx = (char *)malloc(len + 1 + ox), *by = (char *)malloc(len + 20 + oy), *x = bx + ox, *y = by + oy;
        memset(by, 'q', len + 20 + oy); memset(bx, 'r', len + 1 + ox);
        memcpy(x, t.c_str(), len + 1); memcpy(y, t.c_str(), len + 1);
        size_t h = str_hash(x, b), h2 = str_hash(y, b);
        CHECK(h < b, "str_hash of a string of ", len, " in ", b, " buckets is ", h);
        CHECK(h == h2, "str_hash differs for equal strings: ", h, " and ", h2);
        CHECK(strcmp(x, t.c_str()) == 0, "str_hash changed its key");
        free(bx); free(by);
        c.nontrivial(len > 0 && b > 1);
    } else if (k == 3) {
        int e = (int)s.range(0, 46);
        size_t n;
        switch (s.draw(2)) { case 0: n = ((size_t)1 << e) + s.draw(2) - 1; break; case 1: n = (size_t)s.range(1, 5000); break; default: n = ((size_t)1 << e) + s.draw(((size_t)1 << e) - 1); }
        if (n == 0) n = 1;
        size_t w = 1;
        while (w <= n) w <<= 1;
        c.sample = pbt_msg("power of two above ", n);
        CHECK(highestPowerof2(n) == w, "highestPowerof2(", n, ") = ", highestPowerof2(n), ", expected ", w);
        c.nontrivial(n > 2);
    } else {
        CHECK(get_htype_size(H_INT) == sizeof(int32_t) && get_htype_size(H_DOUBLE) == sizeof(double) && get_htype_size(H_FLOAT) == sizeof(float) && get_htype_size(H_LONG) == sizeof(long) &&
              get_htype_size(H_SHORT) == sizeof(short) && get_htype_size(H_CHAR) == 1 && get_htype_size(H_STRING) == sizeof(char *) && get_htype_size(H_PTR) == sizeof(void *), "element sizes");
        uint n = (uint)s.range(0, 60000), p = (uint)s.range(1, 1 << 28);
        CHECK(TRIANGULAR_H(n) == (uint)((uint64_t)n * (n + 1) / 2), "TRIANGULAR_H(", n, ") = ", TRIANGULAR_H(n));
        uint t = hostFistTriangleNum(p);
        CHECK((uint64_t)t * (t + 1) / 2 >= p && (uint64_t)t * (t - 1) / 2 < p, "the first triangle number of at least ", p, " is not that of ", t);
        c.sample = pbt_msg("triangle numbers of ", n, " and around ", p);
        c.nontrivial();
    }
}
