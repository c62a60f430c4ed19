// LINK: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// X02: threads that share no object obtain what they would obtain alone.
#define CONC_WRAP
#include "lives.hpp"
#include "../mon/conc.hpp"
typedef Str (*Job)(uint64_t seed, int steps);
template<class T> static Str lived(uint64_t seed, int steps) { Life<T> l(seed, nullptr); l.run(steps); return l.values(); }
struct Named { const char *name; Job run; };
#define LIFE(T) {#T, lived<T>}
static const Named LIVES[] = {
    LIFE(S), LIFE(StringBuilder), LIFE(StringBuffer), LIFE(Integer), LIFE(Long), LIFE(Short), LIFE(Bytes), LIFE(Character), LIFE(Boolean), LIFE(Float), LIFE(Double),
    LIFE(ListS), LIFE(ListI), LIFE(VecS), LIFE(VecI), LIFE(StackS), LIFE(LinkS), LIFE(MapS), LIFE(MapL), LIFE(SetS), LIFE(PrioS), LIFE(ArrS), LIFE(ArrA),
    LIFE(U::BitSet), LIFE(U::Date), LIFE(U::TimeZone), LIFE(MediaType), LIFE(MessageDigest), LIFE(U::Random), LIFE(Throwable), LIFE(Exception), LIFE(ArithmeticException),
};
static const int NLIVES = (int) (sizeof LIVES / sizeof *LIVES);
// calls whose result is meant to differ from run to run; they run among the others but are not compared
static bool varies(const Str &n) { return n == "UUID" || n == "Object.toString" || n == "Random.bad" || n == "Random.bad-text"; }
static Str called(int k, uint64_t seed, int times) {
    Rng r(seed);
    sink = 0;
    Str how;
    for (int i = 0; i < times; ++i) { try { CALLS[k].run(r); how += '.'; } catch (...) { how += mon::demangle(abi::__cxa_current_exception_type()->name()) + ";"; } }
    return how + std::to_string(sink);
}
struct Task { int what; uint64_t seed; int size; };
static Str name(const Task &t) { return t.what < NLIVES ? LIVES[t.what].name : CALLS[t.what - NLIVES].name; }
static Str perform(const Task &t) {
    if (t.what < NLIVES) return LIVES[t.what].run(t.seed, t.size);
    Str s = called(t.what - NLIVES, t.seed, 1 + t.size % 4);
    return varies(CALLS[t.what - NLIVES].name) ? "" : s;
}
static void together(Ctx &c, int kinds, int each) {
    int n = 2 + c.r.upto(5);
    std::vector<int> few;
    for (int i = 0; i < kinds; ++i) few.push_back(i == 0 ? (int) (c.idx % (uint64_t) (NLIVES + NCALLS)) : c.r.upto(NLIVES + NCALLS));
    std::vector<std::vector<Task>> plan((size_t) n);
    std::vector<std::vector<Str>> alone((size_t) n), got((size_t) n);
    bool twins = c.r.chance(30);                     // every thread does the same work
    for (int i = 0; i < n; ++i) for (int k = 0; k < each; ++k) {
        Task t{c.r.pick(few), c.r.u64(), 3 + c.r.upto(12)};
        if (twins && i) t = plan[0][(size_t) k];
        plan[(size_t) i].push_back(t);
        OP("task", i, name(t), (long) (t.seed >> 20), t.size);
    }
    for (int i = 0; i < n; ++i) for (Task &t : plan[(size_t) i]) alone[(size_t) i].push_back(perform(t));
    int rounds = 1 + c.r.upto(2);
    for (int q = 0; q < rounds; ++q) {
        std::atomic<int> inside{0}, most{0};
        for (auto &g : got) g.clear();
        mon::parallel(c, n, [&](int i, Rng &) {
            int k = inside.fetch_add(1, std::memory_order_relaxed) + 1, m = most.load(std::memory_order_relaxed);
            while (k > m && !most.compare_exchange_weak(m, k, std::memory_order_relaxed)) {}
            for (Task &t : plan[(size_t) i]) got[(size_t) i].push_back(perform(t));
            inside.fetch_sub(1, std::memory_order_relaxed);
        }, 10);
        if (most.load() > 1) c.ev("overlapping_runs");
        for (int i = 0; i < n; ++i) for (size_t k = 0; k < plan[(size_t) i].size(); ++k) {
            c.eq(got[(size_t) i][k], alone[(size_t) i][k], "differs-from-running-alone:" + name(plan[(size_t) i][k]));
            c.ev("compared_tasks");
        }
    }
    c.ev("threads", (uint64_t) n);
    if (twins) c.ev("twin_threads");
}
WORKLOAD(same_class, 1500, 30000) { together(c, 1, 3); }
WORKLOAD(few_classes, 600, 15000) { together(c, 2 + c.r.upto(3), 5); }
WORKLOAD(any_class, 300, 8000) { together(c, 40, 8); }
MON_MAIN
