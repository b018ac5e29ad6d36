// C17 array list, C18 set, C19 linked list, C20 hash table: random operation histories against plain models
#include "engine.hpp"
#include "collections/list.h"
#include "collections/set.h"
#include "collections/linkedlist.h"
#include "collections/hashtable.h"
#include "hdbscan/utils.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
extern "C" long vh_fail_in;

typedef std::vector<unsigned char> Elem;
typedef int32_t (*Cmp)(const void *, const void *);
static bool large;     // thousands of elements
static size_t key_len; // bytes that take part in the byte-wise comparison
static int32_t bytes_cmp(const void *a, const void *b) { int r = memcmp(a, b, key_len); return r < 0 ? -1 : r > 0; }
static int32_t bytes_rcmp(const void *a, const void *b) { return -bytes_cmp(a, b) * 7; }
static int32_t str_cmp(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }

struct Kind { // an element type with its comparator
    size_t step; Cmp cmp; int mode; std::string name; // mode 0: bytes, else HTYPES+1
    int lo, hi; // value range
};
template <class T> static void put(Elem &e, T v) { memcpy(e.data(), &v, sizeof v); }

static Kind gen_kind(pbt::Src &s, bool allow_string) {
    Kind k;
    k.lo = -(int)s.range(0, 6); k.hi = (int)s.range(1, 20);
    if (s.freq({6, 1}) == 1) { k.lo = -100; k.hi = 100; }
    if (large) { k.lo = -3000; k.hi = 30000; }
    int m = s.freq({4, 2, 2, 1, 1, 1, 1, 1, allow_string ? 1 : 0});
    switch (m) {
    case 0: {
        static const size_t st[] = {4, 1, 2, 3, 5, 8, 12, 16, 24, 40, 100};
        k.step = st[s.draw(10)];
        key_len = s.freq({2, 1}) ? std::min<size_t>(k.step, 1 + (size_t)s.draw(large ? 2 : 1)) : k.step;
        k.cmp = s.freq({3, 1}) ? bytes_rcmp : bytes_cmp;
        k.mode = 0;
        k.name = pbt_msg("bytes[", k.step, "] compared on ", key_len, k.cmp == bytes_rcmp ? " descending" : "");
        break;
    }
    case 1: k.step = 4; k.cmp = int_compare; k.mode = 1 + H_INT; k.name = "int"; break;
    case 2: k.step = 8; k.cmp = double_compare; k.mode = 1 + H_DOUBLE; k.name = "double"; break;
    case 3: k.step = 4; k.cmp = float_compare; k.mode = 1 + H_FLOAT; k.name = "float"; break;
    case 4: k.step = 8; k.cmp = long_compare; k.mode = 1 + H_LONG; k.name = "long"; break;
    case 5: k.step = 2; k.cmp = short_compare; k.mode = 1 + H_SHORT; k.name = "short"; break;
    case 6: k.step = 1; k.cmp = char_compare; k.mode = 1 + H_CHAR; k.name = "char"; break;
    case 7: k.step = 8; k.cmp = ptr_compare; k.mode = 1 + H_PTR; k.name = "pointer"; break;
    default: k.step = 8; k.cmp = str_cmp; k.mode = 1 + H_STRING; k.name = "string"; break;
    }
    return k;
}
// an index below n; the ends are favoured
static size_t pick(pbt::Src &s, size_t n) {
    switch (s.freq({6, 1, 1})) {
    case 1: return n - 1;
    case 2: return 0;
    default: return (size_t)s.draw(n - 1);
    }
}
// a number of elements that a history keeps coming back to: sizes at which structures grow or split
static size_t hover_size(pbt::Src &s) {
    if (s.freq({3, 2}) == 0) return 0;
    return ((size_t)1 << s.range(1, large ? 11 : 6)) + (size_t)s.draw(2);
}
static char ptr_pool[40000];
static Elem gen_elem(pbt::Src &s, const Kind &k) {
    Elem e(k.step, 0);
    int v = (int)s.range(k.lo, k.hi);
    bool wide = s.freq({12, 1}) == 1;
    uint64_t w = wide ? s.draw(UINT64_MAX) : 0;
    switch (k.mode) {
    case 0:
        for (size_t i = 0; i < k.step; i++) e[i] = (unsigned char)(i < key_len ? (i == 0 ? v : s.draw(1)) : s.draw(3));
        break;
    case 1 + H_INT: put<int32_t>(e, wide ? (int32_t)w : v); break;
    case 1 + H_LONG: put<long>(e, wide ? (long)w : v); break;
    case 1 + H_SHORT: put<short>(e, wide ? (short)w : (short)v); break;
    case 1 + H_CHAR: put<char>(e, wide ? (char)w : (char)v); break;
    case 1 + H_DOUBLE: put<double>(e, wide ? (double)(int64_t)w * 1e-3 : v * 0.25); break;
    case 1 + H_FLOAT: put<float>(e, wide ? (float)(int64_t)w : (float)v * 0.25f); break;
    case 1 + H_PTR: put<void *>(e, ptr_pool + ((unsigned)(v + 200) * 3) % sizeof ptr_pool); break;
    default: { // up to seven characters in the slot
        char b[8] = {0};
        size_t len = (size_t)s.range(0, 7);
        for (size_t i = 0; i < len; i++) b[i] = (char)("abXY~\x01\xff"[s.draw(wide ? 6 : 2)]);
        memcpy(e.data(), b, 8);
    }
    }
    return e;
}
static std::string show(const Elem &e, const Kind &k) {
    std::ostringstream o;
    switch (k.mode) {
    case 1 + H_INT: { int32_t v; memcpy(&v, e.data(), 4); o << v; break; }
    case 1 + H_LONG: { long v; memcpy(&v, e.data(), 8); o << v; break; }
    case 1 + H_SHORT: { short v; memcpy(&v, e.data(), 2); o << v; break; }
    case 1 + H_CHAR: { o << (int)(char)e[0]; break; }
    case 1 + H_DOUBLE: { double v; memcpy(&v, e.data(), 8); o << v; break; }
    case 1 + H_FLOAT: { float v; memcpy(&v, e.data(), 4); o << v; break; }
    case 1 + H_STRING: o << '"'; for (size_t i = 0; i < 7 && e[i]; i++) { char b[8]; if (e[i] > 32 && e[i] < 127) o << (char)e[i]; else { sprintf(b, "\\x%02x", e[i]); o << b; } } o << '"'; break;
    case 1 + H_PTR: { char *p; memcpy(&p, e.data(), 8); o << "p+" << (p - ptr_pool); break; }
    default: for (size_t i = 0; i < e.size() && i < 12; i++) { char b[4]; sprintf(b, "%02x", e[i]); o << b; }
    }
    return o.str();
}
// a heap buffer of exactly one element, so that overruns are seen
struct Buf {
    unsigned char *p; size_t n;
    explicit Buf(const Elem &e) : p((unsigned char *)malloc(e.size())), n(e.size()) { memcpy(p, e.data(), n); }
    ~Buf() { free(p); }
    Elem get() const { return Elem(p, p + n); }
};
static const char *const LOG_SEP = "; ";

static void list_state(ArrayList *l, const std::vector<Elem> &m, const Kind &k, bool all) {
    CHECK(array_list_size(l) == m.size(), "the list holds ", array_list_size(l), " elements, expected ", m.size());
    CHECK((array_list_empty(l) == 1) == m.empty(), "empty is ", array_list_empty(l), " with ", m.size(), " elements");
    CHECK(l->data != NULL || m.empty(), "no data");
    if (!all) { for (size_t i = 0; i < m.size(); i++) CHECK(memcmp((unsigned char *)l->data + i * k.step, m[i].data(), k.step) == 0, "stored bytes of element ", i); return; }
    for (size_t i = 0; i < m.size(); i++) {
        Buf b(Elem(k.step, 0xee));
        CHECK(array_list_value_at(l, i, b.p) == 1, "element ", i, " cannot be read");
        CHECK(b.get() == m[i], "element ", i, " is ", show(b.get(), k), ", expected ", show(m[i], k));
        CHECK(memcmp((unsigned char *)l->data + i * k.step, m[i].data(), k.step) == 0, "stored bytes of element ", i);
    }
}
static bool is_sorted_by(const std::vector<Elem> &m, Cmp c) {
    for (size_t i = 1; i < m.size(); i++) if (c(m[i - 1].data(), m[i].data()) > 0) return false;
    return true;
}

PROP(C17) {
    large = c.scale > 2;
    long base = pbt::live_allocs();
    {
    Kind k = gen_kind(s, true);
    size_t cap = (size_t)(s.freq({3, 1}) ? s.range(1, 70) : s.range(1, 4));
    ArrayList *l;
    if (k.step == sizeof(void *) && s.coin()) l = ptr_array_list_init(cap, k.cmp);
    else l = array_list_init(cap, k.step, k.cmp);
    c.sample = pbt_msg("array list of ", k.name, ", initial size ", cap, ": ");
    std::vector<Elem> m;
    int ops = (int)s.range(1, c.scale > 2 ? 6000 : c.scale > 1 ? 400 : 90), mutations = 0, shrinks = 0;
    bool grew = false, failed_alloc = false, calm = large || s.freq({2, 1});
    size_t peak = 0, hover = hover_size(s);
    for (int t = 0; t < ops; t++) {
        int op = calm ? s.freq(large ? std::vector<int>{1200, 480, 120, 120, 60, 60, 180, 120, 60, 1, 120, 0, 60} : std::vector<int>{100, 40, 10, 10, 5, 5, 15, 10, 5, 1, 10, 0, 5}) : s.freq({8, 6, 2, 4, 3, 3, 4, 2, 2, 1, 2, 1, 1});
        size_t maxb = l->max_size;
        if (hover && m.size() >= hover && op < 2) op = (int)s.range(3, 5);
        switch (op) {
        case 0: { Buf e(gen_elem(s, k)); c.sample += "append " + show(e.get(), k) + LOG_SEP; CHECK(array_list_append(l, e.p) == 1, "append failed"); m.push_back(e.get()); mutations++; break; }
        case 1: {
            Buf e(gen_elem(s, k));
            size_t pos = s.freq({5, 1}) ? m.size() + (size_t)s.draw(3) : pick(s, m.size() + 1);
            c.sample += pbt_msg("insert ", show(e.get(), k), " at ", pos, LOG_SEP);
            int r = array_list_insert_at(l, e.p, pos);
            CHECK((r == 1) == (pos <= m.size()), "insert at ", pos, " of ", m.size(), " returned ", r);
            if (pos <= m.size()) m.insert(m.begin() + pos, e.get());
            mutations++;
            break;
        }
        case 2: {
            Buf e(gen_elem(s, k)); size_t pos = (size_t)s.draw(m.size() + 1);
            c.sample += pbt_msg("replace ", pos, " by ", show(e.get(), k), LOG_SEP);
            int r = array_list_replace_at(l, e.p, pos);
            CHECK(r == (pos < m.size() ? 1 : 0), "replace at ", pos, " of ", m.size(), " returned ", r);
            if (pos < m.size()) m[pos] = e.get();
            break;
        }
        case 3: {
            size_t pos = s.freq({3, 1}) ? m.size() + (size_t)s.draw(2) : pick(s, m.size() + 1);
            c.sample += pbt_msg("remove at ", pos, LOG_SEP);
            Buf b(Elem(k.step, 0x77));
            int r = array_list_remove_at(l, pos, b.p);
            CHECK(r == (pos < m.size() ? 1 : 0), "remove at ", pos, " of ", m.size(), " returned ", r);
            if (pos < m.size()) { CHECK(b.get() == m[pos], "removed ", show(b.get(), k), " instead of ", show(m[pos], k)); m.erase(m.begin() + pos); shrinks++; }
            else CHECK(b.get() == Elem(k.step, 0x77), "a failed removal wrote a value");
            break;
        }
        case 4: {
            Buf e(m.empty() || s.coin() ? gen_elem(s, k) : m[pick(s, m.size())]);
            c.sample += "remove " + show(e.get(), k) + LOG_SEP;
            Elem asked = e.get();
            auto it = std::find_if(m.begin(), m.end(), [&](const Elem &x) { return k.cmp(x.data(), asked.data()) == 0; });
            int r = array_list_remove(l, e.p);
            CHECK(r == (it == m.end() ? -1 : 1), "remove returned ", r);
            if (it != m.end()) { CHECK(e.get() == *it, "remove handed back ", show(e.get(), k), " instead of ", show(*it, k)); m.erase(it); shrinks++; }
            else CHECK(e.get() == asked, "a failed removal changed the argument");
            break;
        }
        case 5: {
            c.sample += pbt_msg("pop", LOG_SEP);
            Buf b(Elem(k.step, 0x77));
            int r = array_list_pop(l, b.p);
            CHECK(r == (m.empty() ? -1 : 1), "pop of ", m.size(), " returned ", r);
            if (!m.empty()) { CHECK(b.get() == m.back(), "popped ", show(b.get(), k), " instead of ", show(m.back(), k)); m.pop_back(); shrinks++; }
            else CHECK(b.get() == Elem(k.step, 0x77), "pop of an empty list wrote a value");
            break;
        }
        case 6: case 7: {
            Buf e(m.empty() || s.coin() ? gen_elem(s, k) : m[pick(s, m.size())]);
            bool sorted = is_sorted_by(m, k.cmp) && s.coin();
            c.sample += pbt_msg(sorted ? "find sorted " : "find ", show(e.get(), k), LOG_SEP);
            int64_t r = array_list_find(l, e.p, sorted ? 1 : 0);
            size_t i = 0;
            while (i < m.size() && k.cmp(m[i].data(), e.p) != 0) i++;
            if (i == m.size()) CHECK(r == -1, "an absent element was found at ", r);
            else if (!sorted) CHECK(r == (int64_t)i, "found at ", r, ", the first one is at ", i);
            else CHECK(r >= 0 && r < (int64_t)m.size() && k.cmp(m[r].data(), e.p) == 0, "an element present at ", i, " was looked up at ", r);
            break;
        }
        case 8: {
            c.sample += pbt_msg("sort", LOG_SEP);
            array_list_sort(l);
            std::vector<Elem> now;
            for (size_t i = 0; i < l->size; i++) now.push_back(Elem((unsigned char *)l->data + i * k.step, (unsigned char *)l->data + (i + 1) * k.step));
            CHECK(is_sorted_by(now, k.cmp), "not in order after sort");
            auto x = now, y = m;
            std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            CHECK(x == y, "sort changed the elements");
            m = now;
            break;
        }
        case 9: { int rz = (int)s.draw(1); c.sample += pbt_msg("clear ", rz, LOG_SEP); array_list_clear(l, rz); m.clear(); break; }
        case 10: {
            size_t pos = m.size() + (size_t)s.freq({4, 1, 1});
            if (s.freq({5, 1})) pos = (size_t)-1 - (size_t)s.draw(3);
            c.sample += pbt_msg("read at ", pos, LOG_SEP);
            Buf b(Elem(k.step, 0x77));
            CHECK(array_list_value_at(l, pos, b.p) == 0, "position ", pos, " of ", m.size(), " can be read");
            CHECK(b.get() == Elem(k.step, 0x77), "a failed read wrote a value");
            CHECK(array_list_remove_at(l, pos, b.p) == 0 && array_list_replace_at(l, b.p, pos) == 0, "position ", pos, " of ", m.size(), " can be changed");
            break;
        }
        case 11: { if (l->max_size > 5000) break; c.sample += pbt_msg("grow", LOG_SEP); CHECK(array_list_grow(l) == 1 && l->max_size > maxb, "grow from ", maxb, " to ", l->max_size); break; }
        case 12: { // no memory
            Buf e(gen_elem(s, k)); size_t pos = (size_t)s.draw(m.size()); bool ins = s.coin();
            bool full = m.size() == l->max_size;
            c.sample += pbt_msg(ins ? "insert" : "append", " without memory", LOG_SEP);
            vh_fail_in = 1;
            int r = ins ? array_list_insert_at(l, e.p, pos) : array_list_append(l, e.p);
            bool hit = vh_fail_in == 0;
            vh_fail_in = 0;
            if (hit) { CHECK(r == 0, "an addition without memory returned ", r); failed_alloc |= full; }
            else { CHECK(r == 1, "addition failed"); m.insert(ins ? m.begin() + pos : m.end(), e.get()); }
            break;
        }
        }
        peak = std::max(peak, m.size());
        CHECK(l->max_size >= l->size, "capacity ", l->max_size, " below size ", l->size);
        grew |= l->max_size > maxb && op < 2;
        list_state(l, m, k, m.size() < 150 || t % 64 == 0 || t + 1 == ops);
    }
    CHECK(array_list_delete(l) == NULL, "delete returned a list");
    c.nontrivial(mutations >= 5 && shrinks >= 1 && grew);
    c.classify("grew", grew);
    c.classify("more than 64 elements", peak > 64);
    c.classify("more than 1024 elements", peak > 1024);
    c.classify("an addition failed for want of memory", failed_alloc);
    c.classify("partial keys", k.mode == 0 && key_len < k.step);
    }
    CHECK(array_list_delete(NULL) == NULL && array_list_size(NULL) == 0 && array_list_empty(NULL) == 1, "operations without a list");
    CHECK(pbt::live_allocs() == base, "memory not released: ", pbt::live_allocs() - base);
}

PROP(C18) {
    large = c.scale > 2;
    long base = pbt::live_allocs();
    {
    Kind k = gen_kind(s, true);
    set_t *l = set_init(k.step, k.cmp);
    c.sample = pbt_msg("set of ", k.name, ": ");
    std::vector<Elem> m; // in order
    auto lower = [&](const unsigned char *e) { return std::lower_bound(m.begin(), m.end(), e, [&](const Elem &x, const unsigned char *y) { return k.cmp(x.data(), y) < 0; }); };
    int ops = (int)s.range(1, c.scale > 2 ? 6000 : c.scale > 1 ? 500 : 100), dups = 0, removed = 0;
    size_t peak = 0;
    bool calm = large || s.freq({2, 1});
    int seq = s.freq({4, 1, 1}); // random, ascending, descending insertions
    size_t hover = hover_size(s);
    for (int t = 0; t < ops; t++) {
        int op = calm ? s.freq(large ? std::vector<int>{2000, 100, 300, 100, 2, 50, 100} : std::vector<int>{100, 5, 15, 5, 2, 5, 5}) : s.freq({10, 4, 3, 2, 1, 1, 2});
        if (hover && m.size() >= hover && op == 0) op = s.freq({3, 1}) ? 3 : 1;
        switch (op) {
        case 0: {
            Elem el = gen_elem(s, k);
            if (seq && k.mode == 1 + H_INT) put<int32_t>(el, seq == 1 ? t : -t);
            if (!m.empty() && s.freq({4, 1})) el = m[pick(s, m.size())];
            Buf e(el);
            c.sample += "insert " + show(el, k) + LOG_SEP;
            auto it = lower(e.p);
            bool present = it != m.end() && k.cmp(it->data(), e.p) == 0;
            int r = set_insert(l, e.p);
            CHECK(r == (present ? 0 : 1), "insertion of ", present ? "a present" : "a new", " element returned ", r);
            CHECK(e.get() == el, "insert changed its argument");
            if (!present) m.insert(it, el); else dups++;
            break;
        }
        case 1: {
            Elem el = m.empty() || s.freq({3, 1}) ? gen_elem(s, k) : m[pick(s, m.size())];
            Buf e(el);
            c.sample += "remove " + show(el, k) + LOG_SEP;
            auto it = lower(e.p);
            bool present = it != m.end() && k.cmp(it->data(), e.p) == 0;
            int r = set_remove(l, e.p);
            CHECK(r == (present ? 1 : -1), "removal of ", present ? "a present" : "an absent", " element returned ", r);
            if (present) { CHECK(e.get() == *it, "removal handed back ", show(e.get(), k), " instead of ", show(*it, k)); m.erase(it); removed++; }
            break;
        }
        case 2: {
            Elem el = m.empty() || s.coin() ? gen_elem(s, k) : m[pick(s, m.size())];
            Buf e(el);
            c.sample += "find " + show(el, k) + LOG_SEP;
            auto it = lower(e.p);
            int64_t want = it != m.end() && k.cmp(it->data(), e.p) == 0 ? it - m.begin() : -1;
            int64_t r = set_find(l, e.p);
            CHECK(r == want, "found at ", r, ", expected ", want);
            break;
        }
        case 3: {
            size_t pos = pick(s, m.size() + 2);
            c.sample += pbt_msg("remove at ", pos, LOG_SEP);
            Buf b(Elem(k.step, 0x77));
            int r = set_remove_at(l, pos, b.p);
            CHECK(r == (pos < m.size() ? 1 : 0), "remove at ", pos, " of ", m.size(), " returned ", r);
            if (pos < m.size()) { CHECK(b.get() == m[pos], "removed ", show(b.get(), k)); m.erase(m.begin() + pos); removed++; }
            else CHECK(b.get() == Elem(k.step, 0x77), "a failed removal wrote a value");
            break;
        }
        case 4: if (s.coin()) { c.sample += pbt_msg("clear", LOG_SEP); set_clear(l); m.clear(); } break;
        case 5: c.sample += pbt_msg("sort", LOG_SEP); set_sort(l); break;
        case 6: { Buf b(Elem(k.step, 0x77)); size_t pos = m.size() + (size_t)s.draw(2); CHECK(set_value_at(l, pos, b.p) == 0 && b.get() == Elem(k.step, 0x77), "position ", pos, " of ", m.size(), " can be read"); break; }
        }
        peak = std::max(peak, m.size());
        CHECK(set_size(l) == m.size(), "the set holds ", set_size(l), " elements, expected ", m.size());
        CHECK((set_empty(l) == 1) == m.empty(), "empty is ", set_empty(l));
        if (m.size() < 150 || t % 64 == 0 || t + 1 == ops) for (size_t i = 0; i < m.size(); i++) {
            Buf b(Elem(k.step, 0xee));
            CHECK(set_value_at(l, i, b.p) == 1, "element ", i, " cannot be read");
            CHECK(b.get() == m[i], "element ", i, " is ", show(b.get(), k), ", expected ", show(m[i], k));
        }
    }
    for (size_t i = 0; i < m.size(); i++) { Buf b(m[i]); CHECK(set_find(l, b.p) == (int64_t)i, "element ", i, " is not found at its position"); }
    CHECK(set_delete(l) == NULL, "delete returned a set");
    c.nontrivial(peak >= 4 && dups && removed);
    c.classify("duplicates inserted", dups > 0);
    c.classify("ten or more elements", peak >= 10);
    c.classify("more than 64 elements", peak > 64);
    c.classify("more than 1024 elements", peak > 1024);
    }
    CHECK(pbt::live_allocs() == base, "memory not released: ", pbt::live_allocs() - base);
}

PROP(C19) {
    large = c.scale > 2;
    long base = pbt::live_allocs();
    {
    Kind k = gen_kind(s, true);
    linkedlist *l = linkedlist_init(k.step);
    c.sample = pbt_msg("linked list of ", k.name, ": ");
    std::deque<std::pair<Elem, node *>> m;
    int ops = (int)s.range(1, c.scale > 2 ? 4000 : c.scale > 1 ? 300 : 70), inner = 0, adds = 0;
    bool calm = large || s.freq({2, 1});
    size_t hover = hover_size(s);
    for (int t = 0; t < ops; t++) {
        int op = calm ? s.freq(large ? std::vector<int>{900, 900, 400, 400, 400, 100, 100, 300, 100, 2} : std::vector<int>{45, 45, 20, 20, 20, 5, 5, 15, 5, 2}) : s.freq({5, 5, 2, 2, 4, 3, 3, 3, 2, 1});
        if (hover && m.size() >= hover && op < 4) op = (int)s.range(5, 6);
        switch (op) {
        case 0: { Buf e(gen_elem(s, k)); c.sample += "add front " + show(e.get(), k) + LOG_SEP; CHECK(linkedlist_front_add(l, e.p) == 1, "addition failed"); m.push_front({e.get(), l->head}); adds++; break; }
        case 1: { Buf e(gen_elem(s, k)); c.sample += "add tail " + show(e.get(), k) + LOG_SEP; CHECK(linkedlist_tail_add(l, e.p) == 1, "addition failed"); m.push_back({e.get(), l->tail}); adds++; break; }
        case 2: { Buf e(gen_elem(s, k)); c.sample += "add node front " + show(e.get(), k) + LOG_SEP; node *nd = linkedlist_node_front_add(l, e.p); CHECK(nd && nd == l->head, "node of the addition"); m.push_front({e.get(), nd}); adds++; break; }
        case 3: { Buf e(gen_elem(s, k)); c.sample += "add node tail " + show(e.get(), k) + LOG_SEP; node *nd = linkedlist_node_tail_add(l, e.p); CHECK(nd && nd == l->tail, "node of the addition"); m.push_back({e.get(), nd}); adds++; break; }
        case 4: case 5: { // look-up without / with removal
            Elem el = m.empty() || s.freq({2, 1}) ? gen_elem(s, k) : m[pick(s, m.size())].first;
            Buf e(el);
            int rem = op == 5;
            c.sample += pbt_msg(rem ? "take " : "look up ", show(el, k), LOG_SEP);
            auto it = std::find_if(m.begin(), m.end(), [&](const std::pair<Elem, node *> &x) { return k.cmp(x.first.data(), el.data()) == 0; });
            unsigned char *d = (unsigned char *)linkedlist_lookup(l, e.p, rem, k.cmp);
            CHECK((d != NULL) == (it != m.end()), "a ", it != m.end() ? "present" : "absent", " element was ", d ? "found" : "not found");
            if (d) {
                CHECK(memcmp(d, it->first.data(), k.step) == 0, "found ", show(Elem(d, d + k.step), k), ", the first match is ", show(it->first, k));
                if (rem) { if (it != m.begin() && it + 1 != m.end()) inner++; free(d); m.erase(it); }
                else CHECK(d == it->second->data, "not the first match");
            }
            break;
        }
        case 6: {
            Elem el = m.empty() || s.freq({2, 1}) ? gen_elem(s, k) : m[pick(s, m.size())].first;
            Buf e(el);
            c.sample += "remove " + show(el, k) + LOG_SEP;
            auto it = std::find_if(m.begin(), m.end(), [&](const std::pair<Elem, node *> &x) { return k.cmp(x.first.data(), el.data()) == 0; });
            int r = linkedlist_remove(l, e.p, k.cmp);
            CHECK(r == (it != m.end()), "removal returned ", r);
            if (it != m.end()) { if (it != m.begin() && it + 1 != m.end()) inner++; m.erase(it); }
            break;
        }
        case 7: {
            int32_t pos = (int32_t)pick(s, m.size() + 2);
            if (s.freq({8, 1})) pos = -1;
            c.sample += pbt_msg("read at ", pos, LOG_SEP);
            Buf b(Elem(k.step, 0x77));
            int32_t r = linkedlist_value_at(l, pos, b.p);
            if (pos >= 0 && pos < (int32_t)m.size()) CHECK(r == pos && b.get() == m[pos].first, "position ", pos, " reads ", show(b.get(), k), " returns ", r);
            else CHECK(r == -1 && b.get() == Elem(k.step, 0x77), "position ", pos, " of ", m.size(), " returns ", r);
            break;
        }
        case 8: {
            bool head = s.coin(); int rem = (int)s.draw(1);
            c.sample += pbt_msg(rem ? "take " : "read ", head ? "head" : "tail", LOG_SEP);
            unsigned char *d = (unsigned char *)(head ? linkedlist_head(l, rem) : linkedlist_tail(l, rem));
            CHECK((d != NULL) == !m.empty(), head ? "head" : "tail", " of a list of ", m.size());
            if (d) {
                const Elem &want = head ? m.front().first : m.back().first;
                CHECK(memcmp(d, want.data(), k.step) == 0, head ? "head" : "tail", " is ", show(Elem(d, d + k.step), k), ", expected ", show(want, k));
                if (rem) { free(d); if (head) m.pop_front(); else m.pop_back(); }
            }
            break;
        }
        case 9: if (s.coin()) { c.sample += pbt_msg("clear", LOG_SEP); linkedlist_clear(l); m.clear(); } break;
        }
        CHECK(l->size == (int32_t)m.size(), "size is ", l->size, ", expected ", m.size());
        CHECK((linkedlist_empty(l) != 0) == !m.empty(), "empty is ", linkedlist_empty(l), " with ", m.size(), " elements");
        CHECK((l->head == NULL) == m.empty() && (l->tail == NULL) == m.empty(), "ends of a list of ", m.size());
        if (!(m.size() < 150 || t % 64 == 0 || t + 1 == ops)) continue;
        std::vector<node *> fw;
        for (node *n = l->head; n; n = n->next) { fw.push_back(n); CHECK(fw.size() <= m.size(), "forward traversal visits too many nodes"); }
        CHECK(fw.size() == m.size(), "forward traversal visits ", fw.size(), " of ", m.size());
        for (size_t i = 0; i < fw.size(); i++) {
            CHECK(fw[i] == m[i].second, "forward traversal visits another node at ", i);
            CHECK(memcmp(fw[i]->data, m[i].first.data(), k.step) == 0, "node ", i, " holds ", show(Elem((unsigned char *)fw[i]->data, (unsigned char *)fw[i]->data + k.step), k), ", expected ", show(m[i].first, k));
        }
        size_t i = fw.size();
        for (node *n = l->tail; n; n = n->prev) { CHECK(i > 0 && fw[--i] == n, "backward traversal differs at ", i); }
        CHECK(i == 0, "backward traversal misses ", i, " nodes");
    }
    linkedlist_delete(l);
    c.nontrivial(adds >= 4 && inner >= 1);
    c.classify("inner node removed", inner > 0);
    }
    CHECK(pbt::live_allocs() == base, "memory not released: ", pbt::live_allocs() - base);
}

static std::map<void *, int> key_freed, val_freed;
static void key_dtor(void *p) { key_freed[p]++; }
static void val_dtor(void *p) { val_freed[p]++; }
static void key_free(void *p) { key_freed[p]++; free(p); }

static Kind kind_of(int t) {
    Kind k; k.lo = -5; k.hi = 12; k.mode = 1 + t; k.step = get_htype_size((enum HTYPES)t);
    switch (t) {
    case H_INT: k.cmp = int_compare; k.name = "int"; break;
    case H_DOUBLE: k.cmp = double_compare; k.name = "double"; break;
    case H_FLOAT: k.cmp = float_compare; k.name = "float"; break;
    case H_LONG: k.cmp = long_compare; k.name = "long"; break;
    case H_SHORT: k.cmp = short_compare; k.name = "short"; break;
    case H_CHAR: k.cmp = char_compare; k.name = "char"; break;
    case H_STRING: k.cmp = str_cmp; k.name = "string"; break;
    default: k.cmp = ptr_compare; k.name = "pointer";
    }
    return k;
}

PROP(C20) {
    large = c.scale > 2;
    long base = pbt::live_allocs();
    key_freed.clear(); val_freed.clear();
    {
    static const int kts[] = {H_INT, H_LONG, H_SHORT, H_CHAR, H_DOUBLE, H_FLOAT, H_STRING, H_PTR};
    Kind k = kind_of(kts[s.draw(7)]), v = kind_of(kts[s.draw(7)]);
    if (s.coin()) { k.lo = -40; k.hi = 60; }
    if (large) { k.lo = -3000; k.hi = 30000; }
    if (v.mode == 1 + H_PTR && s.coin()) v.hi = 200;
    size_t b = (size_t)(s.freq({1, 2, 2}) == 0 ? 0 : s.coin() ? s.range(1, 6) : s.range(1, large ? 5000 : 120));
    bool exact = s.coin();
    if (b == 0) exact = true; // the requested number is a size; 0 stands for the default number of buckets
    hashtable *h = exact ? hashtable_init_size(b, (enum HTYPES)(k.mode - 1), (enum HTYPES)(v.mode - 1), k.cmp)
                         : hashtable_init(b, (enum HTYPES)(k.mode - 1), (enum HTYPES)(v.mode - 1), k.cmp);
    CHECK(h && h->buckets >= 1, "no table of ", b, " buckets");
    c.sample = pbt_msg("table ", k.name, " -> ", v.name, ", ", h->buckets, " buckets: ");
    auto less = [&k](const Elem &x, const Elem &y) { return k.cmp(x.data(), y.data()) < 0; };
    std::map<Elem, Elem, decltype(less)> m(less);
    int ops = (int)s.range(1, c.scale > 2 ? 6000 : c.scale > 1 ? 400 : 90), repl = 0, rem = 0, clears = 0;
    bool calm = large || s.freq({2, 1});
    size_t peak = 0, hover = hover_size(s);
    auto some_key = [&]() -> Elem {
        if (m.empty() || s.coin()) return gen_elem(s, k);
        auto it = m.begin();
        std::advance(it, (long)pick(s, m.size()));
        return it->first;
    };
    auto dtors_ok = [&](bool kd, bool vd) {
        std::map<void *, int> wk, wv;
        for (auto &kv : m) {
            void *p;
            if (kd) { memcpy(&p, kv.first.data(), 8); if (p) wk[p]++; }
            if (vd) { memcpy(&p, kv.second.data(), 8); if (p) wv[p]++; }
        }
        CHECK(key_freed == wk, "the key destructor was called ", key_freed.size(), " times for ", wk.size(), " different keys, or not once for each");
        CHECK(val_freed == wv, "the value destructor was called for ", val_freed.size(), " different values instead of ", wv.size(), ", or not once for each");
        key_freed.clear(); val_freed.clear();
    };
    auto kdtor = [&](bool on) -> void (*)(void *) { return on ? key_dtor : NULL; };
    auto vdtor = [&](bool on) -> void (*)(void *) { return on ? val_dtor : NULL; };
    bool pk = k.mode == 1 + H_PTR, pv = v.mode == 1 + H_PTR;
    for (int t = 0; t < ops; t++) {
        int op = calm ? s.freq(large ? std::vector<int>{2000, 400, 200, 2, 100} : std::vector<int>{100, 20, 10, 2, 5}) : s.freq({10, 4, 5, 1, 1});
        if (hover && m.size() >= hover && op == 0 && s.freq({6, 1}) == 0) op = 2;
        switch (op) {
        case 0: {
            Elem ke = some_key(), ve = gen_elem(s, v);
            if (pv && s.freq({9, 1})) ve = Elem(8, 0);
            Buf kb(ke), vb(ve);
            c.sample += "insert " + show(ke, k) + "=" + show(ve, v) + LOG_SEP;
            auto it = m.find(ke);
            int r = hashtable_insert(h, kb.p, vb.p);
            CHECK(r == (it == m.end() ? 1 : -1), "insert of a ", it == m.end() ? "new" : "present", " key returned ", r);
            CHECK(kb.get() == ke, "insert changed the key");
            if (it == m.end()) { CHECK(vb.get() == ve, "insert changed the value"); m[ke] = ve; }
            else { CHECK(vb.get() == it->second, "the value handed back is ", show(vb.get(), v), ", it was ", show(it->second, v)); it->second = ve; repl++; }
            break;
        }
        case 1: {
            Elem ke = some_key();
            Buf kb(ke), vb(Elem(v.step, 0x77));
            c.sample += "look up " + show(ke, k) + LOG_SEP;
            auto it = m.find(ke);
            int r = hashtable_lookup(h, kb.p, vb.p);
            CHECK(r == (it != m.end()), "look-up of ", it == m.end() ? "an absent" : "a present", " key returned ", r);
            CHECK(vb.get() == (it == m.end() ? Elem(v.step, 0x77) : it->second), "look-up handed back ", show(vb.get(), v));
            break;
        }
        case 2: {
            Elem ke = some_key();
            Buf kb(ke), vb(Elem(v.step, 0x77));
            c.sample += "remove " + show(ke, k) + LOG_SEP;
            auto it = m.find(ke);
            int r = hashtable_remove(h, kb.p, vb.p);
            CHECK(r == (it != m.end()), "removal of ", it == m.end() ? "an absent" : "a present", " key returned ", r);
            CHECK(vb.get() == (it == m.end() ? Elem(v.step, 0x77) : it->second), "removal handed back ", show(vb.get(), v));
            if (it != m.end()) { m.erase(it); rem++; }
            break;
        }
        case 3:
            if (s.coin()) {
                bool kd = pk && s.coin(), vd = pv && s.coin();
                c.sample += pbt_msg("clear", kd ? " keys" : "", vd ? " values" : "", LOG_SEP);
                CHECK(hashtable_clear(h, kdtor(kd), vdtor(vd)) == 1, "clear failed");
                dtors_ok(kd, vd);
                m.clear(); clears++;
            }
            break;
        case 4: { Buf vb(Elem(v.step, 0x77)); CHECK(hashtable_remove(h, NULL, vb.p) == 0, "removal without a key"); break; }
        }
        peak = std::max(peak, m.size());
        CHECK(hashtable_size(h) == m.size() && h->size == m.size(), "size is ", hashtable_size(h), " (", h->size, "), expected ", m.size());
        CHECK((hashtable_empty(h) == 1) == m.empty(), "empty is ", hashtable_empty(h), " with ", m.size(), " entries");
        CHECK(set_size(h->keys) == m.size(), "the key set holds ", set_size(h->keys), " keys, expected ", m.size());
        size_t i = 0;
        if (m.size() < 150 || t % 64 == 0 || t + 1 == ops) for (auto &kv : m) {
            Buf kb(Elem(k.step, 0xee)), vb(Elem(v.step, 0xee));
            CHECK(set_value_at(h->keys, i, kb.p) == 1 && k.cmp(kb.p, kv.first.data()) == 0, "key ", i, " is ", show(kb.get(), k), ", expected ", show(kv.first, k));
            CHECK(hashtable_lookup(h, kb.p, vb.p) == 1, "key ", show(kv.first, k), " is not found");
            CHECK(vb.get() == kv.second, "key ", show(kv.first, k), " has the value ", show(vb.get(), v), ", expected ", show(kv.second, v));
            i++;
        }
    }
    bool kd = pk && s.coin(), vd = pv && s.coin();
    if (pv && s.freq({3, 1}) == 1) { // values owned by the table
        CHECK(hashtable_clear(h, NULL, NULL) == 1, "clear failed");
        m.clear();
        size_t n = (size_t)s.range(1, 30);
        std::map<void *, int> want;
        for (size_t i = 0; i < n; i++) {
            Elem ke = gen_elem(s, k);
            if (m.count(ke)) continue;
            void *p = malloc(3); Elem ve(8); put(ve, p);
            Buf kb(ke), vb(ve);
            CHECK(hashtable_insert(h, kb.p, vb.p) == 1, "insert failed");
            m[ke] = ve; want[p]++;
        }
        CHECK(hashtable_destroy(h, NULL, key_free) == 1, "destroy failed");
        CHECK(key_freed == want, "values owned by the table are not released once each");
    } else {
        CHECK(hashtable_destroy(h, kdtor(kd), vdtor(vd)) == 1, "destroy failed");
        dtors_ok(kd, vd);
    }
    c.nontrivial(peak >= 3 && repl && rem);
    c.classify("more entries than buckets", peak > (size_t)(b ? b : 37));
    c.classify("cleared and used again", clears > 0);
    c.classify("more than 64 entries", peak > 64);
    c.classify("more than 1024 entries", peak > 1024);
    c.classify("key " + k.name);
    }
    key_freed.clear(); val_freed.clear();
    CHECK(pbt::live_allocs() == base, "memory not released: ", pbt::live_allocs() - base);
}

// C30: an addition, a construction or a clean-up that cannot get memory says so, or succeeds all the same; either way the
// collection holds exactly what it should and nothing is lost.
PROP(C30) {
    large = false;
    long base = pbt::live_allocs();
    int hits = 0, deep = 0;
    {
    static const int kts[] = {H_INT, H_LONG, H_SHORT, H_CHAR, H_DOUBLE, H_FLOAT, H_STRING, H_PTR};
    Kind k = kind_of(kts[s.draw(7)]), v = kind_of(kts[s.draw(7)]);
    k.lo = -40; k.hi = 60;
    if (s.freq({1, 1})) { k.lo = -5; k.hi = 5; }
    auto less = [&k](const Elem &x, const Elem &y) { return k.cmp(x.data(), y.data()) < 0; };
    int what = s.freq({2, 1, 1, 3}); // list, set, linked list, table
    static const char *const names[] = {"array list", "set", "linked list", "table"};
    c.sample = pbt_msg(names[what], " of ", k.name, what == 3 ? " -> " + v.name : "", ": ");
    ArrayList *l = NULL;
    set_t *st = NULL;
    linkedlist *ll = NULL;
    hashtable *h = NULL;
    int armed = 0;
    auto arm = [&](bool on) { armed = on ? (int)s.range(1, 4) : 0; if (on) c.sample += pbt_msg("(request ", armed, " fails) "); vh_fail_in = armed; };
    auto hit = [&] { bool r = armed && vh_fail_in == 0; vh_fail_in = 0; if (r) { hits++; deep += armed > 1; } return r; };
    size_t cap = (size_t)s.range(1, 8), buckets = (size_t)s.range(0, 20);
    bool exact = s.coin();
    for (int tries = 0; ; tries++) {
        c.sample += "create; ";
        long before = pbt::live_allocs();
        arm(tries < 4 && s.coin());
        void *p;
        switch (what) {
        case 0: p = l = k.step == sizeof(void *) && exact ? ptr_array_list_init(cap, k.cmp) : array_list_init(cap, k.step, k.cmp); break;
        case 1: p = st = set_init(k.step, k.cmp); break;
        case 2: p = ll = linkedlist_init(k.step); break;
        default: p = h = exact ? hashtable_init_size(buckets, (enum HTYPES)(k.mode - 1), (enum HTYPES)(v.mode - 1), k.cmp) : hashtable_init(buckets, (enum HTYPES)(k.mode - 1), (enum HTYPES)(v.mode - 1), k.cmp);
        }
        bool f = hit();
        if (p) break;
        CHECK(f, "creation failed although there was memory");
        CHECK(pbt::live_allocs() == before, "a failed creation keeps ", pbt::live_allocs() - before, " allocations");
    }
    std::vector<Elem> m;                             // list, set (in order), linked list
    std::map<Elem, Elem, decltype(less)> t(less);    // table
    int ops = (int)s.range(1, c.scale > 1 ? 200 : 50);
    for (int i = 0; i < ops; i++) {
        Elem ke = gen_elem(s, k), ve = gen_elem(s, v);
        if (what == 3 && !t.empty() && s.coin()) { auto it = t.begin(); std::advance(it, (long)s.draw(t.size() - 1)); ke = it->first; }
        if (what == 1 && !m.empty() && s.freq({3, 1})) ke = m[(size_t)s.draw(m.size() - 1)];
        Buf kb(ke), vb(ve), out(Elem(std::max<size_t>(k.step, v.step), 0x77));
        int op = s.freq({12, 4, 3, 1});
        bool fail_now = s.coin();
        long before = pbt::live_allocs();
        switch (what) {
        case 0: {
            if (op == 3) { int rz = (int)s.draw(1); c.sample += pbt_msg("clear ", rz, "; "); arm(fail_now); array_list_clear(l, rz); hit(); m.clear(); break; }
            if (op == 2) { c.sample += "pop; "; int r = array_list_pop(l, out.p); CHECK(r == (m.empty() ? -1 : 1), "pop returned ", r); if (!m.empty()) m.pop_back(); break; }
            if (op == 1 && s.coin()) {
                c.sample += "grow; ";
                size_t was = l->max_size;
                if (was > 2000) break;
                arm(fail_now);
                int r = array_list_grow(l);
                if (!hit() || r == 1) CHECK(r == 1 && l->max_size > was, "growing returned ", r);
                else CHECK(r <= 0 && l->max_size == was, "growing without memory returned ", r, ", capacity ", l->max_size, " after ", was);
                break;
            }
            size_t pos = op == 1 ? (size_t)s.draw(m.size()) : m.size();
            bool app = op == 0 && s.coin();
            c.sample += pbt_msg(app ? "append " : "insert ", show(ke, k), " at ", pos, "; ");
            arm(fail_now);
            int r = app ? array_list_append(l, kb.p) : array_list_insert_at(l, kb.p, pos);
            bool f = hit();
            CHECK(r == 1 || (f && r == 0), "the addition returned ", r, f ? " without memory" : "");
            if (r == 1) m.insert(m.begin() + (long)pos, ke);
            break;
        }
        case 1: {
            if (op == 3) { c.sample += "clear; "; arm(fail_now); set_clear(st); hit(); m.clear(); break; }
            auto it = std::lower_bound(m.begin(), m.end(), ke, less);
            bool present = it != m.end() && !less(ke, *it);
            if (op == 2) { c.sample += "remove " + show(ke, k) + "; "; int r = set_remove(st, kb.p); CHECK(r == (present ? 1 : -1), "removal returned ", r); if (present) m.erase(it); break; }
            c.sample += "insert " + show(ke, k) + "; ";
            arm(fail_now);
            int r = set_insert(st, kb.p);
            bool f = hit();
            CHECK(r == (present ? 0 : 1) || (f && r == 0), "insertion returned ", r, f ? " without memory" : "");
            if (r == 1) m.insert(it, ke);
            break;
        }
        case 2: {
            if (op == 3) { c.sample += "clear; "; arm(fail_now); linkedlist_clear(ll); hit(); m.clear(); break; }
            if (op == 2) { c.sample += "take the head; "; void *d = linkedlist_head(ll, 1); CHECK((d == NULL) == m.empty(), "head"); free(d); if (!m.empty()) m.erase(m.begin()); break; }
            bool front = s.coin(), as_node = s.coin();
            c.sample += pbt_msg(front ? "add in front " : "add behind ", show(ke, k), "; ");
            arm(fail_now);
            int r = as_node ? (front ? linkedlist_node_front_add(ll, kb.p) : linkedlist_node_tail_add(ll, kb.p)) != NULL : front ? linkedlist_front_add(ll, kb.p) : linkedlist_tail_add(ll, kb.p);
            bool f = hit();
            CHECK((r == 1 && !f) || f, "the addition returned ", r);
            // what it did is visible in the size
            CHECK(ll->size == m.size() + (r == 1), "the addition returned ", r, " and the list has ", ll->size, " elements after ", m.size());
            if (r == 1) m.insert(front ? m.begin() : m.end(), ke);
            else CHECK(pbt::live_allocs() == before, "a failed addition keeps ", pbt::live_allocs() - before, " allocations");
            break;
        }
        default: {
            if (op == 3) {
                c.sample += "clear; ";
                arm(fail_now);
                int r = hashtable_clear(h, NULL, NULL);
                bool f = hit();
                CHECK(r == 1 || (f && r == 0), "clearing returned ", r, f ? " without memory" : "");
                if (r == 1) t.clear();
                break;
            }
            auto it = t.find(ke);
            if (op == 2) {
                c.sample += "remove " + show(ke, k) + "; ";
                arm(fail_now);
                int r = hashtable_remove(h, kb.p, out.p);
                bool f = hit();
                CHECK(r == (it != t.end()) || (f && r == 0), "removal returned ", r);
                if (r == 1) { CHECK(memcmp(out.p, it->second.data(), v.step) == 0, "removal handed back another value"); t.erase(it); }
                break;
            }
            c.sample += "insert " + show(ke, k) + "=" + show(ve, v) + "; ";
            arm(fail_now);
            int r = hashtable_insert(h, kb.p, vb.p);
            bool f = hit();
            CHECK(r == (it == t.end() ? 1 : -1) || (f && r == 0), "insertion of a ", it == t.end() ? "new" : "present", " key returned ", r, f ? " without memory" : "");
            CHECK(kb.get() == ke, "insert changed the key");
            if (r == 0) CHECK(vb.get() == ve && pbt::live_allocs() == before, "a failed insertion changed the value or keeps ", pbt::live_allocs() - before, " allocations");
            if (r == 1) t[ke] = ve;
            if (r == -1) { CHECK(vb.get() == it->second, "the value handed back is ", show(vb.get(), v)); it->second = ve; }
        }
        }
        // the collection holds what it should
        if (what == 0) list_state(l, m, k, true);
        if (what == 1) list_state(st, m, k, true);
        if (what == 2) {
            CHECK(ll->size == m.size(), "the list has ", ll->size, " elements, expected ", m.size());
            size_t n = 0;
            for (node *q = ll->head; q; q = q->next, n++) {
                CHECK(n < m.size() && memcmp(q->data, m[n].data(), k.step) == 0, "element ", n, " differs");
                CHECK(q->next ? q->next->prev == q : ll->tail == q, "the links of element ", n);
            }
            CHECK(n == m.size(), n, " elements are linked, expected ", m.size());
        }
        if (what == 3) {
            CHECK(hashtable_size(h) == t.size() && h->size == t.size() && set_size(h->keys) == t.size(), "size ", h->size, ", keys ", set_size(h->keys), ", expected ", t.size());
            for (auto &kv : t) {
                Buf a(kv.first), b(Elem(v.step, 0xee));
                CHECK(hashtable_lookup(h, a.p, b.p) == 1 && b.get() == kv.second, "key ", show(kv.first, k), " is lost or has another value");
            }
            CHECK(what != 3 || hashtable_lookup(h, kb.p, out.p) == (int)t.count(ke), "key ", show(ke, k), " is found although it was not added");
        }
    }
    c.sample += "destroy; ";
    arm(s.coin());
    if (what == 0) array_list_delete(l);
    if (what == 1) set_delete(st);
    if (what == 2) linkedlist_delete(ll);
    if (what == 3) {
        int r = hashtable_destroy(h, NULL, NULL);
        bool f = hit();
        CHECK(r == 1 || (f && r == 0), "destroying returned ", r);
        if (r == 0) CHECK(hashtable_destroy(h, NULL, NULL) == 1, "destroying failed with memory");
    } else hit();
    c.classify(names[what]);
    }
    c.classify("the second or a later request failed", deep > 0);
    c.nontrivial(hits >= 1);
    CHECK(pbt::live_allocs() == base, "memory not released: ", pbt::live_allocs() - base);
}
