#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" long vh_live(void);
extern "C" void __gcov_dump(void) __attribute__((weak)); // present in coverage builds (tools/coverage.py)

namespace pbt {

struct Shm {
    volatile uint64_t case_idx, cases_done, nchoices;
    volatile double case_cpu0;
    volatile int failed;
    char msg[8192];
    char desc[16384];
    uint64_t choices[MAX_CHOICES];
    // statistics
    int nclasses;
    struct { char name[60]; uint64_t n; } cls[200];
    uint64_t nontrivial;
    int nsamples;
    char samples[8][3000];
    uint64_t nhash;
    uint64_t hashes[4000000];
};
static Shm *shm;
static std::map<std::string, PropFn> &props() { static std::map<std::string, PropFn> m; return m; }
Reg::Reg(const char *n, PropFn f) { props()[n] = f; }
void fail(const std::string &m) { throw PropFail{m}; }
long live_allocs() { return vh_live(); }
void Sample::publish() {
    if (!shm) return;
    size_t k = std::min(s.size(), sizeof shm->desc - 1);
    memcpy(shm->desc, s.data(), k);
    shm->desc[k] = 0;
}
static std::map<std::string, int> clsidx;
static bool counting = true;
void Ctx::classify(const std::string &name, bool on) {
    if (!on || !counting || !shm) return;
    auto it = clsidx.find(name);
    if (it == clsidx.end()) {
        if (shm->nclasses >= 200) return;
        snprintf(shm->cls[shm->nclasses].name, 60, "%s", name.c_str());
        it = clsidx.insert({name, shm->nclasses++}).first;
    }
    shm->cls[it->second].n++;
}

static std::string scratch;
const char *scratch_dir() { return scratch.c_str(); }
static int saved_out = -1;
static int cap_fd = -1;
void capture_begin() {
    fflush(stdout);
    if (cap_fd < 0) cap_fd = memfd_create("cap", 0);
    if (ftruncate(cap_fd, 0)) {}
    lseek(cap_fd, 0, SEEK_SET);
    saved_out = dup(1);
    dup2(cap_fd, 1);
}
std::string capture_end() {
    fflush(stdout);
    dup2(saved_out, 1);
    close(saved_out);
    off_t n = lseek(cap_fd, 0, SEEK_END);
    std::string s((size_t)n, 0);
    if (pread(cap_fd, &s[0], (size_t)n, 0) != n) s.clear();
    return s;
}

static double cpu_self() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double cpu_of(pid_t p) { clockid_t c; timespec t; if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return -1; return t.tv_sec + t.tv_nsec * 1e-9; }

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x7f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static double case_cpu_limit = 40;

static void child_setup(const char *errfile) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (errfile) { int e = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0) dup2(e, 2); }
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

static void leave(int rc) { if (__gcov_dump) __gcov_dump(); _exit(rc); }

static void run_one(PropFn fn, Src &s, Ctx &c) { // returns normally or exits the process on failure
    try {
        fn(s, c);
    } catch (PropFail &f) {
        snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
        shm->failed = 1;
        leave(1);
    }
}

// wait for child; returns 0 ok, 1 property failure, 2 crash, 3 hang
static int watch(pid_t pid, std::string &why, double wall_case_limit) {
    uint64_t lastidx = ~0ull;
    double t0 = wall();
    for (unsigned it = 0;; it++) {
        int st;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            if (WIFEXITED(st)) {
                int e = WEXITSTATUS(st);
                if (e == 0) return 0;
                if (shm->failed) return 1;
                why = "process exited with status " + std::to_string(e) + " (sanitizer report or exit)";
                return 2;
            }
            why = std::string("process killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
            return 2;
        }
        if (shm->case_idx != lastidx) { lastidx = shm->case_idx; t0 = wall(); }
        double c = cpu_of(pid);
        if ((c >= 0 && c - shm->case_cpu0 > case_cpu_limit) || wall() - t0 > wall_case_limit) {
            if (shm->case_idx == lastidx) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                why = "case did not terminate within " + std::to_string((int)case_cpu_limit) + " s of CPU time";
                return 3;
            }
        }
        usleep(it < 200 ? 300 : 5000);
    }
}

static std::string errtail(const char *f) {
    FILE *h = fopen(f, "r");
    if (!h) return "";
    std::string all;
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, h)) > 0 && all.size() < 200000) all.append(b, k);
    fclose(h);
    size_t p = all.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = all.find("runtime error");
    if (p != std::string::npos) {
        size_t q = all.rfind('\n', p);
        all = all.substr(q == std::string::npos ? 0 : q + 1);
    }
    return all.substr(0, 2500);
}

static std::string errfile;

static int try_choices(PropFn fn, int scale, const std::vector<uint64_t> &ch, std::string &why) {
    shm->failed = 0; shm->msg[0] = 0; shm->desc[0] = 0; shm->nchoices = 0;
    shm->case_idx = shm->case_idx + 1;
    shm->case_cpu0 = 0;
    pid_t p = fork();
    if (p == 0) {
        child_setup(errfile.c_str());
        counting = false;
        shm->case_cpu0 = cpu_self();
        Src s; s.random = false; s.rep = ch.data(); s.nrep = ch.size(); s.rec = shm->choices; s.nrec = &shm->nchoices;
        Ctx c; c.scale = scale;
        run_one(fn, s, c);
        leave(0);
    }
    int r = watch(p, why, 300);
    if (r == 1) why = shm->msg;
    if (r == 2) why += "\n" + errtail(errfile.c_str());
    return r;
}

static uint64_t case_state(uint64_t seed, uint64_t ph, int worker, uint64_t i) { return mix(mix(mix(seed, ph), (uint64_t)worker), i); }
static uint64_t prop_hash(const std::string &p) {
    uint64_t ph = 1469598103934665603ULL;
    for (char ch : p) ph = (ph ^ (unsigned char)ch) * 1099511628211ULL;
    return ph;
}

// runs generated cases from..to one after another in one process
static int try_range(PropFn fn, int scale, uint64_t seed, uint64_t ph, int worker, uint64_t from, uint64_t to, std::string &why) {
    shm->failed = 0; shm->msg[0] = 0; shm->desc[0] = 0; shm->nchoices = 0;
    shm->case_idx = ~1ull;
    shm->case_cpu0 = 0;
    pid_t p = fork();
    if (p == 0) {
        child_setup(errfile.c_str());
        counting = false;
        for (uint64_t i = from; i <= to; i++) {
            shm->nchoices = 0;
            shm->case_cpu0 = cpu_self();
            shm->case_idx = i;
            Src s; s.st = case_state(seed, ph, worker, i); s.rec = shm->choices; s.nrec = &shm->nchoices;
            Ctx c; c.scale = scale;
            run_one(fn, s, c);
        }
        leave(0);
    }
    int r = watch(p, why, 300);
    if (r == 1) why = shm->msg;
    if (r == 2) why += "\n" + errtail(errfile.c_str());
    return r;
}

static std::vector<uint64_t> shrink(PropFn fn, int scale, std::vector<uint64_t> best, int kind, double budget, std::string &why, std::string &desc) {
    double t0 = wall();
    if (kind == 3) case_cpu_limit = 15;
    auto better = [&](const std::vector<uint64_t> &c) {
        std::string w;
        int r = try_choices(fn, scale, c, w);
        if (r == 0) return false;
        if (r == 3 && kind != 3) return false;
        // normalise to what was actually consumed
        std::vector<uint64_t> used(shm->choices, shm->choices + std::min<size_t>((size_t)shm->nchoices, c.size()));
        std::vector<uint64_t> cand = used.size() <= c.size() ? used : c;
        while (!cand.empty() && cand.back() == 0) cand.pop_back();
        if (cand.size() < best.size() || (cand.size() == best.size() && cand < best)) { best = cand; why = w; desc = shm->desc; return true; }
        return false;
    };
    auto left = [&] { return wall() - t0 < budget; };
    bool any = true;
    while (any && left()) {
        any = false;
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1 && left(); blk /= 2) {
            for (size_t i = best.size(); i-- > 0 && left();) {
                if (i + blk > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + blk);
                if (better(c)) { any = true; if (i > best.size()) i = best.size(); }
                else if (blk > 1 && i >= blk) i -= blk - 1;
            }
            if (blk == 1) break;
        }
        for (size_t blk : {size_t(16), size_t(4)})
            for (size_t i = 0; i + blk <= best.size() && left(); i += blk) {
                auto c = best;
                bool nz = false;
                for (size_t k = i; k < i + blk; k++) { nz |= c[k] != 0; c[k] = 0; }
                if (nz && better(c)) any = true;
            }
        for (size_t i = 0; i < best.size() && left(); i++) {
            if (!best[i]) continue;
            auto c = best; c[i] = 0;
            if (better(c)) { any = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (hi - lo > 1 && i < best.size() && left()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[i] = mid;
                if (better(c)) { any = true; hi = i < best.size() ? best[i] : 0; if (hi <= lo) break; }
                else lo = mid;
            }
            // delete one element while decrementing an earlier count
            if (i < best.size() && best[i] > 0) {
                for (size_t j = i + 1; j < std::min(best.size(), i + 12) && left(); j++) {
                    c = best; c[i]--; c.erase(c.begin() + j);
                    if (better(c)) { any = true; break; }
                }
            }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

static std::vector<uint64_t> parse_choices(const char *f) {
    std::vector<uint64_t> v;
    FILE *h = fopen(f, "r");
    if (!h) { perror(f); exit(2); }
    unsigned long long x;
    while (fscanf(h, "%llu", &x) == 1) v.push_back(x);
    fclose(h);
    return v;
}

static void write_result(const char *out, const std::string &failjson) {
    FILE *h = fopen(out, "w");
    fprintf(h, "{\"cases\": %llu, \"nontrivial\": %llu, \"classes\": {", (unsigned long long)shm->cases_done, (unsigned long long)shm->nontrivial);
    for (int i = 0; i < shm->nclasses; i++) fprintf(h, "%s%s: %llu", i ? ", " : "", jstr(shm->cls[i].name).c_str(), (unsigned long long)shm->cls[i].n);
    fprintf(h, "}, \"samples\": [");
    for (int i = 0; i < shm->nsamples; i++) fprintf(h, "%s%s", i ? ", " : "", jstr(shm->samples[i]).c_str());
    fprintf(h, "], \"failure\": %s}\n", failjson.c_str());
    fclose(h);
    std::string hf = std::string(out) + ".hashes";
    h = fopen(hf.c_str(), "wb");
    fwrite(shm->hashes, 8, shm->nhash, h);
    fclose(h);
}

static void init_shm() {
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); exit(2); }
}

#ifdef PBT_FUZZ
} // namespace pbt
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    using namespace pbt;
    init_shm();
    const char *d = getenv("PBT_SCRATCH");
    scratch = d ? d : "/tmp";
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    using namespace pbt;
    static PropFn fn = props()[getenv("PBT_PROP")];
    Src s; s.bytes = data; s.nbytes = size; s.rec = shm->choices; s.nrec = &shm->nchoices;
    Ctx c; counting = false;
    static const char *dump = getenv("PBT_DUMP");
    try { fn(s, c); } catch (PropFail &f) {
        fprintf(stderr, "PROPFAIL %s\n", f.msg.c_str());
        if (!dump) __builtin_trap();
    }
    if (dump) {
        FILE *h = fopen(dump, "w");
        for (size_t i = 0; i < shm->nchoices; i++) fprintf(h, "%llu\n", (unsigned long long)shm->choices[i]);
        fclose(h);
    }
    return 0;
}
namespace pbt {
#else
static int main_(int argc, char **argv) {
    // pbt PROP run SEED WORKER CASES WALLLIMIT OUT SCALE SHRINKBUDGET | pbt PROP replay FILE SCALE
    if (argc < 3) {
        for (auto &p : props()) printf("%s\n", p.first.c_str());
        return 0;
    }
    std::string prop = argv[1], mode = argv[2];
    if (!props().count(prop)) { fprintf(stderr, "no property %s\n", prop.c_str()); return 2; }
    PropFn fn = props()[prop];
    init_shm();
    const char *d = getenv("PBT_SCRATCH");
    scratch = (d ? std::string(d) : std::string("/tmp")) + "/s" + std::to_string(getpid());
    mkdir(scratch.c_str(), 0700);
    errfile = scratch + ".err";
    if (mode == "replay") {
        auto ch = parse_choices(argv[3]);
        int scale = argc > 4 ? atoi(argv[4]) : 1;
        if (scale > 3) case_cpu_limit = 120;
        std::string why;
        int r = try_choices(fn, scale, ch, why);
        printf("%s\n%s\n%s\n", r == 0 ? "PASS" : r == 1 ? "FAIL" : r == 2 ? "CRASH" : "HANG", why.c_str(), shm->desc);
        return r == 0 ? 0 : 1;
    }
    if (mode == "range") { // pbt PROP range SEED WORKER FROM TO SCALE
        std::string why;
        int r = try_range(fn, atoi(argv[7]), strtoull(argv[3], 0, 10), prop_hash(prop), atoi(argv[4]), strtoull(argv[5], 0, 10), strtoull(argv[6], 0, 10), why);
        printf("%s\n%s\n%s\n", r == 0 ? "PASS" : r == 1 ? "FAIL" : r == 2 ? "CRASH" : "HANG", why.c_str(), shm->desc);
        return r == 0 ? 0 : 1;
    }
    if (mode == "shrink") { // pbt PROP shrink FILE SCALE BUDGET OUTCHOICES
        auto ch = parse_choices(argv[3]);
        int scale = atoi(argv[4]);
        std::string why, desc;
        int r = try_choices(fn, scale, ch, why);
        desc = shm->desc;
        if (r == 0) { printf("PASS\n"); return 0; }
        ch = shrink(fn, scale, ch, r, atof(argv[5]), why, desc);
        FILE *h = fopen(argv[6], "w");
        for (auto x : ch) fprintf(h, "%llu\n", (unsigned long long)x);
        fclose(h);
        printf("FAIL\n%s\n%s\n", why.c_str(), desc.c_str());
        return 1;
    }
    uint64_t seed = strtoull(argv[3], 0, 10);
    int worker = atoi(argv[4]);
    uint64_t cases = strtoull(argv[5], 0, 10);
    double limit = atof(argv[6]);
    const char *out = argv[7];
    int scale = atoi(argv[8]);
    double budget = atof(argv[9]);
    if (scale > 3) case_cpu_limit = 120;
    uint64_t ph = prop_hash(prop);
    double t0 = wall();
    pid_t p = fork();
    if (p == 0) {
        child_setup(errfile.c_str());
        for (uint64_t i = 0; i < cases; i++) {
            if (wall() - t0 > limit) break;
            shm->nchoices = 0;
            shm->case_cpu0 = cpu_self();
            shm->case_idx = i;
            Src s;
            s.st = case_state(seed, ph, worker, i);
            s.rec = shm->choices; s.nrec = &shm->nchoices;
            Ctx c; c.scale = scale;
            run_one(fn, s, c);
            shm->cases_done = i + 1;
            if (c.nontriv) {
                shm->nontrivial++;
                uint64_t h = 1469598103934665603ULL;
                for (size_t k = 0; k < shm->nchoices; k++) h = mix(h, shm->choices[k]);
                if (shm->nhash < 4000000) shm->hashes[shm->nhash++] = h;
                if (shm->nsamples < 2 || (shm->nsamples < 4 && (i & 255) == 0))
                    snprintf(shm->samples[shm->nsamples++], 3000, "%s", c.sample.c_str());
            }
        }
        leave(0);
    }
    std::string why;
    int r = watch(p, why, 300);
    std::string fj = "null";
    if (r) {
        std::vector<uint64_t> ch(shm->choices, shm->choices + shm->nchoices);
        std::string desc = shm->desc;
        if (r == 1) why = shm->msg;
        if (r == 2) why += "\n" + errtail(errfile.c_str());
        std::string why0 = why;
        // save statistics before re-runs
        std::string w1;
        uint64_t ci = shm->case_idx;
        int r1 = try_choices(fn, scale, ch, w1);
        std::vector<uint64_t> sh = ch;
        int conf = 0;
        std::string win;
        if (r1) {
            desc = shm->desc;
            why = w1;
            if (r1 == 3 && scale > 3) conf = 3; // twice over the limit; too slow to shrink
            else sh = shrink(fn, scale, ch, r1, budget, why, desc);
            for (int k = 0; k < 3 && conf < 3; k++) { std::string w; if (try_choices(fn, scale, sh, w)) { conf++; why = w; } }
        } else {
            // not reproducible alone: may depend on what the process did before (shortest run of cases that fails) ...
            double tf = wall();
            for (uint64_t k = 1; conf < 3 && wall() - tf < 200; k *= 2) {
                uint64_t from = ci > k ? ci - k : 0;
                conf = 0;
                for (int q = 0; q < 3; q++) { std::string w; if (try_range(fn, scale, seed, ph, worker, from, ci, w)) { conf++; why = w; } else break; }
                if (conf == 3) { desc = shm->desc; win = ", \"window\": [" + std::to_string(from) + "," + std::to_string(ci) + "]"; break; }
                if (from == 0) break;
            }
            // ... or on real thread timing
            if (conf < 3) { conf = 0; for (int k = 0; k < 25 && conf < 3 && wall() - tf < 300; k++) { std::string w; if (try_choices(fn, scale, ch, w)) { conf++; why = w; } } }
        }
        std::string cl;
        for (size_t k = 0; k < sh.size(); k++) cl += (k ? "," : "") + std::to_string(sh[k]);
        fj = "{\"kind\": " + std::to_string(r) + ", \"case\": " + std::to_string(ci) + ", \"seed\": " + std::to_string(seed) + ", \"worker\": " + std::to_string(worker) + ", \"confirmed\": " + std::to_string(conf) +
             win + ", \"message\": " + jstr(why) + ", \"first_message\": " + jstr(why0) + ", \"desc\": " + jstr(desc) + ", \"choices\": [" + cl + "]}";
    }
    write_result(out, fj);
    return 0;
}
#endif
} // namespace pbt
#ifndef PBT_FUZZ
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
