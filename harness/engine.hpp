// Choice-sequence property-based testing engine.
// A property draws every random decision from a Src; the sequence of drawn numbers
// fully determines a case, so it is what is recorded, shrunk and replayed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct PropFail { std::string msg; };

static const size_t MAX_CHOICES = 1u << 18;

struct Src {
    // modes
    bool random = true;
    uint64_t st = 1;                 // rng state (random mode)
    const uint64_t *rep = nullptr;   // replay list
    size_t nrep = 0;
    const uint8_t *bytes = nullptr;  // byte mode (coverage guided)
    size_t nbytes = 0, bpos = 0;
    // record
    uint64_t *rec = nullptr;
    volatile uint64_t *nrec = nullptr;
    size_t pos = 0;

    uint64_t rng() { // splitmix64
        uint64_t z = (st += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // uniform in [0, n]
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (bytes) {
            int k = n < 256 ? 1 : n < 65536 ? 2 : n < (1ull << 32) ? 4 : 8;
            v = 0;
            for (int i = 0; i < k; i++) v = v << 8 | (bpos < nbytes ? bytes[bpos++] : 0);
            if (n != UINT64_MAX) v %= n + 1;
        } else if (random) {
            v = rng();
            if (n != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * (n + 1)) >> 64);
        } else {
            v = pos < nrep ? rep[pos] : 0;
            if (v > n) v = n;
        }
        if (pos < MAX_CHOICES) { if (rec) rec[pos] = v; }
        pos++;
        if (nrec) *nrec = pos < MAX_CHOICES ? pos : MAX_CHOICES;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    bool coin(int num = 1, int den = 2) { return (int)draw((uint64_t)den - 1) >= den - num; }
    // weighted choice; index 0 is the simplest
    int freq(std::initializer_list<int> w) { return freq_of(w); }
    int freq(const std::vector<int> &w) { return freq_of(w); }
    template <class W> int freq_of(const W &w) {
        int tot = 0;
        for (int x : w) tot += x;
        int v = (int)draw((uint64_t)tot - 1), i = 0;
        for (int x : w) { if (v < x) return i; v -= x; i++; }
        return 0;
    }
};

// description of the case, kept where it survives a crash of the process
struct Sample {
    std::string s;
    void publish();
    Sample &operator=(const std::string &x) { s = x; publish(); return *this; }
    Sample &operator+=(const std::string &x) { s += x; publish(); return *this; }
    const char *c_str() const { return s.c_str(); }
};
struct Ctx {
    bool nontriv = false;
    int scale = 1;         // 1: quick sizes, 2: larger sizes
    Sample sample;
    void classify(const std::string &name, bool on = true);
    void nontrivial(bool b = true) { if (b) nontriv = true; }
};

typedef void (*PropFn)(Src &, Ctx &);
struct Reg { Reg(const char *name, PropFn fn); };
#define PROP(id) \
    static void prop_##id(pbt::Src &s, pbt::Ctx &c); \
    static pbt::Reg reg_##id(#id, prop_##id); \
    static void prop_##id(pbt::Src &s, pbt::Ctx &c)

[[noreturn]] void fail(const std::string &msg);
// live allocations made through malloc/calloc/realloc by library and harness C-style code
long live_allocs();
// stdout capture
std::string capture_end();
void capture_begin();
const char *scratch_dir(); // per-process scratch directory, exists
} // namespace pbt

#define CHECK(cond, ...) \
    do { if (!(cond)) { std::ostringstream os_; os_ << #cond << " failed: " << pbt_msg(__VA_ARGS__); pbt::fail(os_.str()); } } while (0)

inline void pbt_put(std::ostringstream &) {}
template <class T, class... A> void pbt_put(std::ostringstream &o, const T &t, const A &...a) { o << t; pbt_put(o, a...); }
template <class... A> std::string pbt_msg(const A &...a) { std::ostringstream o; o.precision(17); pbt_put(o, a...); return o.str(); }
