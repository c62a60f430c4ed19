// Runtime-monitoring harness shared by every driver in /verif/drivers.
//
// A driver registers workloads ("kinds").  Every kind is executed as many
// independent, seeded cases; each case records the operations it performs in a
// crash-proof (mmapped) trace and compares what the real code did with an
// oracle.  The runner (/verif/run.py) owns sharding, replay and verdicts.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <typeinfo>
#include <exception>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

namespace mon {

// ---------------------------------------------------------------- randomness
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hstr(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    // inclusive range
    int64_t range(int64_t lo, int64_t hi) {
        uint64_t span = (uint64_t) hi - (uint64_t) lo + 1;
        if (span == 0) return (int64_t) u64();
        return (int64_t) ((uint64_t) lo + u64() % span);
    }
    int upto(int n) { return n <= 0 ? 0 : (int) (u64() % (uint64_t) n); }      // [0,n)
    bool chance(int pct) { return (int) (u64() % 100) < pct; }
    double unit() { return (double) (u64() >> 11) / 9007199254740992.0; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
    // sizes: mostly small, sometimes around powers of two, sometimes large
    int size(int max) {
        int k = upto(10);
        if (k < 4) return upto(std::min(max, 8) + 1);
        if (k < 7) return upto(std::min(max, 40) + 1);
        if (k < 9) {
            int e = 3;
            while ((1 << e) < max && chance(75)) ++e;
            int v = (1 << e) + (int) range(-2, 2);
            return v > max ? max : (v < 0 ? 0 : v);
        }
        return upto(max + 1);
    }
    int32_t i32() {
        static const std::vector<int32_t> sp = {0, 1, -1, 2, -2, 7, 8, 9, 10, -10, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100,
            127, 128, 129, -127, -128, -129, 255, 256, 257, 999, 1000, 32767, 32768, -32768, -32769, 65535, 65536, 65537,
            1073741823, 1073741824, 1073741825, -1073741824, 2147483647, 2147483646, (int32_t) 0x80000000, -2147483647,
            0x55555555, (int32_t) 0xaaaaaaaa, 0x0f0f0f0f, (int32_t) 0xf0f0f0f0, 46340, 46341, -46341, 214748364, 214748365, -214748364, -214748365};
        switch (upto(6)) {
            case 0: case 1: return pick(sp);
            case 2: return (int32_t) range(-20, 20);
            case 3: return (int32_t) (1u << upto(32)) + (int32_t) range(-1, 1);
            case 4: return (int32_t) (u64() >> (32 + upto(32)));
            default: return (int32_t) u64();
        }
    }
    int64_t i64() {
        static const std::vector<int64_t> sp = {0, 1, -1, 2, -2, 10, -10, 255, 256, 65535, 65536, 2147483647LL, 2147483648LL,
            -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, -4294967296LL, 3037000499LL, 3037000500LL, -3037000500LL,
            INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 4611686018427387904LL, -4611686018427387904LL,
            0x5555555555555555LL, (int64_t) 0xaaaaaaaaaaaaaaaaULL, 0x0f0f0f0f0f0f0f0fLL, 922337203685477580LL, 922337203685477581LL,
            -922337203685477580LL, -922337203685477581LL, 999999999999LL, 1000000000000LL};
        switch (upto(6)) {
            case 0: case 1: return pick(sp);
            case 2: return range(-20, 20);
            case 3: return (int64_t) ((1ULL << upto(64)) + (uint64_t) range(-1, 1));
            case 4: return (int64_t) (u64() >> upto(64));
            default: return (int64_t) u64();
        }
    }
    std::string bytes(int n, const std::string &alphabet) {
        std::string r;
        for (int i = 0; i < n; ++i) r += alphabet[u64() % alphabet.size()];
        return r;
    }
};

// ------------------------------------------------------------------- tracing
struct TraceMem {
    static const size_t CAP = 1 << 17;
    volatile uint64_t caseIdx;
    volatile uint64_t len;
    volatile uint64_t state;            // 0 idle, 1 running
    char kind[64];
    char data[CAP];
};

struct Violation { std::string key, msg; };

inline std::string esc(const std::string &s, size_t lim = 160) {
    std::string r = "\"";
    size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= lim) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}
inline std::string show(const std::string &s) { return esc(s); }
inline std::string show(const char *s) { return s ? esc(s) : std::string("null"); }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string show(float d) { char b[64]; snprintf(b, sizeof b, "%.9g", (double) d); return b; }
inline std::string show(int v) { return std::to_string(v); }
inline std::string show(long v) { return std::to_string(v); }
inline std::string show(long long v) { return std::to_string(v); }
inline std::string show(unsigned v) { return std::to_string(v); }
inline std::string show(unsigned long v) { return std::to_string(v); }
inline std::string show(char v) { return "'" + esc(std::string(1, v)) + "'"; }
inline std::string show(unsigned char v) { return std::to_string((int) v); }
inline std::string show(short v) { return std::to_string((int) v); }
template<class T> std::string show(const std::vector<T> &v) {
    std::string r = "[";
    size_t i = 0;
    for (const auto &x : v) { if (i++) r += ","; if (i > 40) { r += "..."; break; } r += show(x); }
    return r + "](" + std::to_string(v.size()) + ")";
}

struct Global {
    uint64_t seed = 1;
    bool thorough = false, leaks = false;
    int shard = 0, shards = 1;
    long only = -1;
    std::string onlyKind;
    TraceMem *tm = nullptr;
    TraceMem fallback;
    std::map<std::string, uint64_t> ops;
    std::map<std::string, uint64_t> events;       // monitor-side observations
    std::unordered_set<uint64_t> sigs;
    uint64_t cases = 0, nontriv = 0, compares = 0, viols = 0;
    std::vector<std::string> samples;
    std::set<std::string> seenKeys;
    std::string outPrefix;
    std::mutex mu;
};
inline Global &G() { static Global *g = new Global(); return *g; }

struct Ctx {
    Rng r;
    bool nontrivial = true;
    uint64_t idx;
    std::string kind;
    uint64_t sigx = 0;
    bool quiet = false;                 // do not trace/count (used when a case is re-run for leak accounting)
    std::mutex *mu = nullptr;           // set by concurrent workloads

    Ctx(uint64_t s, uint64_t i, const std::string &k) : r(s), idx(i), kind(k) {}

    void log(const std::string &s) {
        if (quiet) return;
        TraceMem *t = G().tm;
        uint64_t l = t->len;
        size_t n = s.size();
        if (l + n + 2 >= TraceMem::CAP) {               // keep the most recent half
            size_t keep = TraceMem::CAP / 2;
            memmove(t->data, t->data + (l - keep), keep);
            l = keep;
            if (n + 2 >= TraceMem::CAP - l) n = TraceMem::CAP - l - 2;
        }
        memcpy(t->data + l, s.data(), n);
        t->data[l + n] = '\n';
        t->len = l + n + 1;
    }
    // op("name(args)"): record one call on the code under test
    void op(const std::string &s) {
        if (quiet) return;
        std::string name = s.substr(0, s.find('('));
        ++G().ops[name];
        sigx = mix(sigx ^ hstr(s));
        log(s);
    }
    void ev(const char *name, uint64_t n = 1) { if (!quiet) G().events[name] += n; }
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
    void check(bool ok, const std::string &key, const std::string &msg) {
        ++G().compares;
        if (!ok) fail(key, msg);
    }
    template<class A, class B> void eq(const A &actual, const B &expected, const std::string &key) {
        ++G().compares;
        if (!(actual == expected))
            fail(key, "got " + show(actual) + " expected " + show(expected));
    }
};

// --------------------------------------------------------------- exceptions
inline std::string demangle(const char *n) {
    int st = 0;
    char *p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = p ? p : n;
    free(p);
    return r;
}
// Runs f; returns "" or the name (last component) of the type it threw.
template<class F> std::string thrown(F f) {
    try { f(); return ""; }
    catch (Violation &) { throw; }
    catch (...) {
        std::string n = demangle(abi::__cxa_current_exception_type()->name());
        size_t p = n.rfind("::");
        bool std_ = n.compare(0, 5, "std::") == 0;
        return std_ ? n : (p == std::string::npos ? n : n.substr(p + 2));
    }
}

// ------------------------------------------------------------------ registry
struct Kind { std::string name; long quick, thorough; std::function<void(Ctx &)> fn; };
inline std::vector<Kind> &kinds() { static auto *k = new std::vector<Kind>(); return *k; }
struct Reg { Reg(const char *n, long q, long t, std::function<void(Ctx &)> f) { kinds().push_back({n, q, t, f}); } };
#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
// WORKLOAD(name, quick cases, thorough cases) { body using c (mon::Ctx&) }
#define WORKLOAD(NAME, Q, T) \
    static void MON_CAT(wl_, NAME)(mon::Ctx &c); \
    static mon::Reg MON_CAT(reg_, NAME)(#NAME, Q, T, MON_CAT(wl_, NAME)); \
    static void MON_CAT(wl_, NAME)(mon::Ctx &c)

// Pinned probes: one specific input each, run in a child process of their own
// so that a crash or hang is contained.  They decide known findings.
struct Probe { std::string id; std::function<bool()> holds; };
inline std::vector<Probe> &probes() { static auto *p = new std::vector<Probe>(); return *p; }
struct PReg { PReg(const char *n, std::function<bool()> f) { probes().push_back({n, f}); } };
#define PROBE(ID) \
    static bool MON_CAT(probe_, ID)(); \
    static mon::PReg MON_CAT(preg_, ID)(#ID, MON_CAT(probe_, ID)); \
    static bool MON_CAT(probe_, ID)()

inline void writeAll(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) return; o += n; } }

inline std::string jesc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}

inline void report(Ctx &c, const Violation &v) {
    Global &g = G();
    ++g.viols;
    if (!g.seenKeys.insert(v.key).second) return;
    TraceMem *t = g.tm;
    std::string rep = "kind=" + c.kind + "\ncase=" + std::to_string(c.idx) + "\nseed=" + std::to_string(g.seed) +
                      "\nkey=" + v.key + "\nmessage=" + v.msg + "\n--- trace ---\n" + std::string(t->data, t->len);
    std::string path = g.outPrefix + ".viol." + std::to_string(g.seenKeys.size());
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { writeAll(fd, rep); close(fd); }
}

// ---------------------------------------------------- progress monitoring
// Hang of a sequential case: CPU time.  Stall of a concurrent case: every
// worker thread asleep with unchanged context-switch counters for a long time.
static const int EXIT_HANG = 97, EXIT_STALL = 96;
inline void onProf(int) { _exit(EXIT_HANG); }
inline void cpuLimit(int seconds) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    signal(SIGPROF, onProf);
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline std::string fingerprintThreads(bool &allAsleep) {
    allAsleep = true;
    std::string fp;
    DIR *d = opendir("/proc/self/task");
    if (!d) { allAsleep = false; return ""; }
    long self = (long) gettid();
    std::vector<std::string> names;
    while (dirent *e = readdir(d)) if (e->d_name[0] != '.' && atol(e->d_name) != self) names.push_back(e->d_name);
    closedir(d);
    for (auto &n : names) {
        char buf[4096];
        int fd = open(("/proc/self/task/" + n + "/status").c_str(), O_RDONLY);
        if (fd < 0) continue;
        ssize_t k = read(fd, buf, sizeof buf - 1);
        close(fd);
        if (k <= 0) continue;
        buf[k] = 0;
        const char *st = strstr(buf, "State:");
        if (st && st[7] != 'S') allAsleep = false;
        const char *v = strstr(buf, "voluntary_ctxt_switches:");
        fp += n + ":" + (v ? std::string(v, strcspn(v, "\n")) : "") + ";";
    }
    return fp;
}
// Background watchdog used by concurrent drivers (own thread).
struct StallWatch {
    std::atomic<bool> stop{false};
    std::thread th;
    explicit StallWatch(double seconds) {
        th = std::thread([this, seconds] {
            std::string last;
            int quietTicks = 0;
            while (!stop) {
                usleep(250000);
                bool asleep;
                std::string fp = fingerprintThreads(asleep);
                if (asleep && fp == last) ++quietTicks; else quietTicks = 0;
                last = fp;
                if (quietTicks * 0.25 >= seconds) _exit(EXIT_STALL);
            }
        });
    }
    ~StallWatch() { stop = true; th.join(); }
};

// Only the memory is judged: a case that keeps growing live memory each time it is repeated leaks, one-time caches do not.
// What its oracle says is left to the property the case belongs to.
inline void watchMemory(const Kind &k, Ctx &first) {
    uint64_t seed = first.r.s, idx = first.idx;
    try { k.fn(first); } catch (...) { first.ev("cases_left_to_their_property"); return; }
    size_t grown[3];
    for (size_t &x : grown) {
        size_t a = __sanitizer_get_current_allocated_bytes();
        { Ctx c(seed, idx, k.name); c.quiet = true; try { k.fn(c); } catch (...) {} }
        size_t b = __sanitizer_get_current_allocated_bytes();
        x = b > a ? b - a : 0;
        ++G().compares;
        if (!x) { first.ev("steady_cases"); return; }
    }
    report(first, Violation{"leak:" + k.name, "each repetition of the case leaves more memory allocated: " + std::to_string(grown[0]) + ", " + std::to_string(grown[1]) + ", " + std::to_string(grown[2]) + " bytes"});
}

inline void runCase(const Kind &k, uint64_t idx) {
    Global &g = G();
    Ctx c(mix(mix(g.seed * 1000003ULL + idx) ^ hstr(k.name)), idx, k.name);
    TraceMem *t = g.tm;
    t->caseIdx = idx;
    t->len = 0;
    snprintf(t->kind, sizeof t->kind, "%s", k.name.c_str());
    t->state = 1;
    if (g.leaks) watchMemory(k, c);
    else try {
        try { k.fn(c); }
        catch (Violation &) { throw; }
        catch (...) {
            std::string n = demangle(abi::__cxa_current_exception_type()->name());
            throw Violation{"unexpected-exception:" + n, "an operation that must succeed threw " + n};
        }
    } catch (Violation &v) { report(c, v); }
    t->state = 0;
    ++g.cases;
    uint64_t sig = mix(c.sigx ^ hstr(k.name));
    if (c.nontrivial && c.sigx) g.sigs.insert(sig);
    if (g.samples.size() < 6 && (g.cases % 37 == 1) && t->len) {
        std::string tr(t->data, std::min<uint64_t>((uint64_t) t->len, 600));
        g.samples.push_back(k.name + "#" + std::to_string(idx) + ": " + tr);
    }
}

inline void dumpStats() {
    Global &g = G();
    std::ostringstream o;
    o << "{\"cases\":" << g.cases << ",\"compares\":" << g.compares << ",\"violations\":" << g.viols << ",\"ops\":{";
    bool first = true;
    for (auto &p : g.ops) { o << (first ? "" : ",") << jesc(p.first) << ":" << p.second; first = false; }
    o << "},\"events\":{";
    first = true;
    for (auto &p : g.events) { o << (first ? "" : ",") << jesc(p.first) << ":" << p.second; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto &s : g.samples) { o << (first ? "" : ",") << jesc(s); first = false; }
    o << "]}";
    int fd = open((g.outPrefix + ".stats").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { writeAll(fd, o.str()); close(fd); }
    fd = open((g.outPrefix + ".sigs").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
        std::string b;
        for (uint64_t s : g.sigs) b.append((const char *) &s, 8);
        writeAll(fd, b);
        close(fd);
    }
}

inline int &cpuSecondsPerCase() { static int s = 25; return s; }
inline std::function<void()> &teardown() { static auto *f = new std::function<void()>(); return *f; }

inline int runMain(int argc, char **argv) {
    Global &g = G();
    std::string probe;
    bool listProbes = false;
    long limit = 0;                     // at most this many cases of each workload,
    double budget = 0;                  // and about this many seconds for each
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") g.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") g.thorough = true;
        else if (a == "--shard") g.shard = atoi(val().c_str());
        else if (a == "--shards") g.shards = atoi(val().c_str());
        else if (a == "--case") g.only = atol(val().c_str());
        else if (a == "--kind") g.onlyKind = val();
        else if (a == "--out") g.outPrefix = val();
        else if (a == "--probe") probe = val();
        else if (a == "--list-probes") listProbes = true;
        else if (a == "--leaks") g.leaks = true;
        else if (a == "--limit") limit = atol(val().c_str());
        else if (a == "--budget") { budget = atof(val().c_str()); if (!g.leaks) cpuSecondsPerCase() = 0; }
    }
    g.tm = &g.fallback;
    if (listProbes) { for (auto &p : probes()) printf("%s\n", p.id.c_str()); return 0; }
    if (!probe.empty()) {
        for (auto &p : probes()) if (p.id == probe) {
            cpuLimit(20);
            bool ok = false;
            try { ok = p.holds(); } catch (...) { ok = false; }
            printf("PROBE %s %s\n", probe.c_str(), ok ? "holds" : "fails");
            fflush(stdout);
            _exit(ok ? 0 : 3);
        }
        _exit(4);
    }
    if (!g.outPrefix.empty()) {
        int fd = open((g.outPrefix + ".trace").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(TraceMem)) == 0) {
            void *m = mmap(nullptr, sizeof(TraceMem), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) g.tm = (TraceMem *) m;
        }
    }
    for (auto &k : kinds()) {
        if (!g.onlyKind.empty() && k.name != g.onlyKind) continue;
        long n = g.thorough ? k.thorough : k.quick;
        if (limit > 0 && n > limit) n = limit;
        auto t0 = std::chrono::steady_clock::now();
        for (long i = 0; i < n; ++i) {
            if (g.only >= 0 ? i != g.only : (i % g.shards) != g.shard) continue;
            if (cpuSecondsPerCase() > 0) cpuLimit(cpuSecondsPerCase());
            runCase(k, (uint64_t) i);
            if (g.viols > 200 && budget <= 0) break;
            if (budget > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
        }
        if (g.only >= 0 && g.only >= n) runCase(k, (uint64_t) g.only);
    }
    struct itimerval it;
    memset(&it, 0, sizeof it);
    setitimer(ITIMER_PROF, &it, nullptr);
    if (teardown()) teardown()();
    dumpStats();
    g.tm->state = 2;                    // finished
    fflush(stdout);
    _exit(g.viols ? 5 : 0);
}
} // namespace mon

#define MON_MAIN int main(int argc, char **argv) { return mon::runMain(argc, argv); }
#endif
