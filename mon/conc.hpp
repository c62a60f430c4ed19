// Concurrent-workload support: worker threads with a common start, injected
// delays around every mutex operation of the library (linked with --wrap), a
// stall watchdog and a Wing-Gong linearizability decision for small histories.
#ifndef VERIF_CONC_HPP
#define VERIF_CONC_HPP
#include "mon.hpp"
#include <pthread.h>
#include <sched.h>
#include <cerrno>

namespace mon {

// relaxed on purpose: the monitor's clock must not order the threads it watches
inline std::atomic<uint64_t> &clockCounter() { static std::atomic<uint64_t> c{1}; return c; }
inline uint64_t now() { return clockCounter().fetch_add(1, std::memory_order_relaxed); }

struct Delay { uint64_t s = 0; int pct = 0; };
inline Delay &delay() { static thread_local Delay d; return d; }
inline std::atomic<uint64_t> &delaysInjected() { static std::atomic<uint64_t> c{0}; return c; }
inline void maybeDelay() {
    Delay &d = delay();
    if (!d.pct) return;
    d.s += 0x9e3779b97f4a7c15ULL;
    uint64_t r = mix(d.s);
    if ((int) (r % 100) >= d.pct) return;
    delaysInjected().fetch_add(1, std::memory_order_relaxed);
    int e = errno;
    switch ((r >> 8) % 6) {
        case 0: case 1: case 2: sched_yield(); break;
        case 3: { volatile int x = 0; for (int i = 0; i < (int) ((r >> 16) % 2000); ++i) x = i; break; }
        case 4: usleep((useconds_t) ((r >> 16) % 60)); break;
        default: usleep((useconds_t) ((r >> 16) % 400)); break;
    }
    errno = e;
}

// ------------------------------------------------------------- worker threads
struct Workers {
    std::mutex mu;
    std::vector<long> tids;
};
inline Workers &workers() { static Workers *w = new Workers(); return *w; }

// Watchdog: exits with EXIT_STALL when every registered worker has been asleep,
// without a single context switch, for stallSeconds().  One thread per process,
// started by the first concurrent case; idle while no worker is registered.
inline double &stallSeconds() { static double s = 6; return s; }
inline void *watchBody(void *) {
    std::string last;
    int quiet = 0;
    for (;;) {
        usleep(100000);
        std::vector<long> t;
        { std::lock_guard<std::mutex> g(workers().mu); t = workers().tids; }
        bool asleep = !t.empty();
        std::string fp;
        for (long id : t) {
            char buf[4096], path[64];
            snprintf(path, sizeof path, "/proc/self/task/%ld/status", id);
            int fd = open(path, O_RDONLY);
            if (fd < 0) continue;
            ssize_t k = read(fd, buf, sizeof buf - 1);
            close(fd);
            if (k <= 0) continue;
            buf[k] = 0;
            const char *st = strstr(buf, "State:");
            if (st && st[7] != 'S') asleep = false;
            const char *v = strstr(buf, "voluntary_ctxt_switches:");
            fp += std::to_string(id) + ":" + (v ? std::string(v, strcspn(v, "\n")) : "") + ";";
        }
        if (asleep && !fp.empty() && fp == last) ++quiet; else quiet = 0;
        last = fp;
        if (quiet * 0.1 >= stallSeconds()) _exit(EXIT_STALL);
    }
    return nullptr;
}
inline void startWatch() {
    static bool started = false;
    if (started) return;
    started = true;
    pthread_t th;
    pthread_create(&th, nullptr, watchBody, nullptr);
    pthread_detach(th);
}

// Runs body(i, rng) on n threads that start together; returns when all ended.
inline void parallel(Ctx &c, int n, const std::function<void(int, Rng &)> &body, int delayPct = 25) {
    struct Start { pthread_barrier_t b; } st;
    pthread_barrier_init(&st.b, nullptr, (unsigned) n);
    std::vector<uint64_t> seeds;
    for (int i = 0; i < n; ++i) seeds.push_back(c.r.u64());
    std::vector<std::string> errors((size_t) n), keys((size_t) n);
    { std::lock_guard<std::mutex> g(workers().mu); workers().tids.clear(); }
    {
        startWatch();
        std::vector<std::thread> ts;
        for (int i = 0; i < n; ++i)
            ts.emplace_back([&, i] {
                { std::lock_guard<std::mutex> g(workers().mu); workers().tids.push_back((long) gettid()); }
                delay().s = seeds[(size_t) i];
                delay().pct = delayPct;
                Rng r(mix(seeds[(size_t) i]));
                pthread_barrier_wait(&st.b);
                try { body(i, r); }
                catch (Violation &v) { keys[(size_t) i] = v.key; errors[(size_t) i] = v.msg; }
                catch (...) { keys[(size_t) i] = "unexpected-exception:" + demangle(abi::__cxa_current_exception_type()->name()); }
                delay().pct = 0;
            });
        for (auto &t : ts) t.join();
    }
    { std::lock_guard<std::mutex> g(workers().mu); workers().tids.clear(); }
    pthread_barrier_destroy(&st.b);
    c.ev("threads_run", (uint64_t) n);
    G().events["delays_injected"] = delaysInjected().load();
    for (int i = 0; i < n; ++i) if (!keys[(size_t) i].empty()) c.fail(keys[(size_t) i], "thread " + std::to_string(i) + ": " + errors[(size_t) i]);
}

// ------------------------------------------------------------ linearizability
struct Timed { uint64_t call = 0, ret = 0; };
// Op derives from Timed.  apply(state, op) returns false if op's recorded result is impossible in that state, and
// otherwise updates the state; key(state) is a canonical text of the state.
template<class State, class Op>
bool linearizable(const std::vector<Op> &ops, const State &init, const std::function<bool(State &, const Op &)> &apply,
                  const std::function<std::string(const State &)> &key, uint64_t *explored = nullptr) {
    size_t n = ops.size();
    std::set<std::pair<uint64_t, std::string>> seen;
    std::function<bool(uint64_t, const State &)> go = [&](uint64_t done, const State &s) -> bool {
        if (done == (n == 64 ? ~0ULL : (1ULL << n) - 1)) return true;
        if (!seen.insert({done, key(s)}).second) return false;
        if (explored) ++*explored;
        uint64_t minRet = ~0ULL;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1)) minRet = std::min(minRet, ops[i].ret);
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1 || ops[i].call > minRet) continue;
            State t = s;
            if (apply(t, ops[i]) && go(done | 1ULL << i, t)) return true;
        }
        return false;
    };
    return go(0, init);
}
// how many pairs of operations of different threads really overlapped
template<class Op> uint64_t overlaps(const std::vector<Op> &ops) {
    uint64_t k = 0;
    for (size_t i = 0; i < ops.size(); ++i) for (size_t j = i + 1; j < ops.size(); ++j)
        if (ops[i].call < ops[j].ret && ops[j].call < ops[i].ret) ++k;
    return k;
}
} // namespace mon

// Delay injection: the driver is linked with --wrap for these two functions.
#ifdef CONC_WRAP
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { mon::maybeDelay(); return __real_pthread_mutex_lock(m); }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); mon::maybeDelay(); return r; }
#endif
#endif
