// LINK: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// T02: Semaphore under concurrent acquire / tryAcquire / release.
#define CONC_WRAP
#include "lib.hpp"
#include "../mon/conc.hpp"
using mon::Ctx;
using mon::Rng;
using Java::Util::Concurrent::Semaphore;
static double ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec * 1e3 + (double) t.tv_nsec / 1e6; }
static const long LONGWAIT = 120000;                 // never expires: a waiter left behind is a stall

// every form a call may be written in
static bool tryNow(Semaphore &s, Rng &r, int k) { return k == 1 && r.chance(60) ? (bool) s.tryAcquire() : r.chance(70) ? (bool) s.tryAcquire(k) : (bool) s.tryAcquire(k, 0); }
static void give(Semaphore &s, Rng &r, int k) { if (k == 1 && r.chance(50)) s.release(); else s.release(k); }
static void take(Semaphore &s, Rng &r, int k) {      // blocks until k permits are ours, through any of the entry points
    switch (r.upto(5)) {
        case 0: case 1: if (k == 1 && r.chance(60)) s.acquire(); else s.acquire(k); return;
        case 2: if (!s.tryAcquire(k, LONGWAIT)) throw mon::Violation{"timed-acquire-gave-up", "before its timeout"}; return;
        case 3: for (int i = 0; i < 30; ++i) { if (tryNow(s, r, k)) return; sched_yield(); } s.acquire(k); return;
        default: for (int i = 0; i < 300; ++i) if (s.tryAcquire(k, 1 + r.upto(3))) return; s.acquire(k); return;   // ends asleep if the permit never comes
    }
}

// A binary semaphore protects unsynchronised data.
WORKLOAD(mutex, 120, 2500) {
    int n = 2 + c.r.upto(5), each = 8 + c.r.upto(25);
    OP("mutex", n, each);
    Semaphore s(1);
    long counter = 0;                                // plain on purpose: TSan sees a missing happens-before edge
    std::atomic<int> inside{0};
    std::vector<int> order;
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (int k = 0; k < each; ++k) {
            take(s, r, 1);
            int in = inside.fetch_add(1, std::memory_order_relaxed) + 1;
            long v = counter;
            mon::maybeDelay();
            counter = v + 1;
            if (order.empty() || order.back() != i) order.push_back(i);
            inside.fetch_sub(1, std::memory_order_relaxed);
            if (in != 1) throw mon::Violation{"two-holders", show(in)};
            give(s, r, 1);
        }
    });
    c.eq(counter, (long) n * each, "mutex.lost-update");
    c.eq(s.availablePermits(), 1, "mutex.permits");
    c.ev("handovers", (uint64_t) order.size());
    for (int o : order) c.sigx = mon::mix(c.sigx ^ (uint64_t) o);
}
// A pool of P permits taken in batches: never over-granted, all given back.
WORKLOAD(pool, 150, 3000) {
    int P = 1 + c.r.upto(6), n = 2 + c.r.upto(6), each = 6 + c.r.upto(16);
    OP("pool", P, n, each);
    Semaphore s(P);
    std::atomic<int> held{0};
    std::atomic<long> grants{0}, refusals{0};
    mon::parallel(c, n, [&](int, Rng &r) {
        for (int k = 0; k < each; ++k) {
            int q = r.chance(5) ? 0 : 1 + r.upto(P);
            if (r.chance(20)) { if (!(r.chance(50) ? tryNow(s, r, q) : s.tryAcquire(q, r.upto(3)))) { refusals.fetch_add(1, std::memory_order_relaxed); continue; } }
            else take(s, r, q);
            int h = held.fetch_add(q, std::memory_order_relaxed) + q;
            grants.fetch_add(1, std::memory_order_relaxed);
            mon::maybeDelay();
            int av = s.availablePermits();
            held.fetch_sub(q, std::memory_order_relaxed);
            if (h > P) throw mon::Violation{"over-granted", show(h) + " of " + show(P)};
            if (av < 0 || av > P - q) throw mon::Violation{"availablePermits-range", show(av) + " while " + show(q) + " of " + show(P) + " are held"};
            give(s, r, q);
        }
    });
    c.eq(s.availablePermits(), P, "pool.permits");
    c.eq(N(s.toString()), "[Permits = " + std::to_string(P) + "]", "pool.toString");
    c.ev("grants", (uint64_t) grants.load()); c.ev("refusals", (uint64_t) refusals.load());
    c.sigx = mon::mix(c.sigx ^ (uint64_t) grants.load() * 1000003ULL ^ (uint64_t) refusals.load());
}
// Waiters that demand exactly what the releasers supply all get through.
WORKLOAD(handoff, 200, 4000) {
    int waiters = 1 + c.r.upto(6), releasers = 1 + c.r.upto(3), total = 0, init = c.r.upto(3) - 1;
    std::vector<int> want;
    for (int i = 0; i < waiters; ++i) { want.push_back(1 + c.r.upto(3)); total += want.back(); }
    int extra = c.r.upto(3), supply = total + extra - init;
    bool bulk = c.r.chance(50);
    OP("handoff", waiters, releasers, total, init, extra, bulk);
    Semaphore s(init);
    std::vector<int> share((size_t) releasers, 0);
    for (int i = 0; i < supply; ++i) share[(size_t) c.r.upto(releasers)]++;
    std::atomic<int> through{0};
    mon::parallel(c, waiters + releasers, [&](int i, Rng &r) {
        if (i < waiters) { if (r.chance(60)) s.acquire(want[(size_t) i]); else take(s, r, want[(size_t) i]); through.fetch_add(1, std::memory_order_relaxed); return; }
        int left = share[(size_t) (i - waiters)];
        if (r.chance(60)) usleep((useconds_t) r.upto(3000));       // let the waiters block first
        while (left > 0) { int k = bulk ? left : 1 + r.upto(std::min(left, 2)); give(s, r, k); left -= k; if (r.chance(30)) usleep((useconds_t) r.upto(300)); }
    });
    c.eq(through.load(), waiters, "handoff.waiters");
    c.eq(s.availablePermits(), extra, "handoff.permits");
    c.ev("waiters_admitted", (uint64_t) waiters);
    if (bulk) c.ev("bulk_releases");
}
// Timed attempts on too few permits fail, not early, and take nothing.
WORKLOAD(timed, 60, 1200) {
    int n = 1 + c.r.upto(4), P = c.r.upto(3);
    OP("timed", n, P);
    Semaphore s(P);
    std::atomic<int> fails{0};
    mon::parallel(c, n, [&](int, Rng &r) {
        for (int k = 0; k < 3; ++k) {
            int want = P + 1 + r.upto(2), t = r.upto(25);
            double a = ms();
            bool g = s.tryAcquire(want, t);
            double d = ms() - a;
            if (g) throw mon::Violation{"granted-from-nothing", show(want) + " of " + show(P)};
            if (d + 0.05 < t) throw mon::Violation{"gave-up-early", std::to_string(d) + " ms of " + std::to_string(t)};
            fails.fetch_add(1, std::memory_order_relaxed);
            if (r.chance(30) && tryNow(s, r, want)) throw mon::Violation{"granted-from-nothing", show(want)};
        }
    });
    c.eq(s.availablePermits(), P, "timed.permits");
    c.ev("timeouts", (uint64_t) fails.load());
}
// A permit that arrives while timed waiters wait goes to exactly one of them.
WORKLOAD(late, 60, 1200) {
    int n = 1 + c.r.upto(4), give = 1 + c.r.upto(n);
    OP("late", n, give);
    Semaphore s;
    std::atomic<int> got{0};
    mon::parallel(c, n + 1, [&](int i, Rng &r) {
        if (i == n) { usleep((useconds_t) r.upto(4000)); for (int k = 0; k < give; ++k) s.release(); return; }
        if (s.tryAcquire(1, r.chance(50) ? r.upto(8) : 30)) got.fetch_add(1, std::memory_order_relaxed);
    });
    c.eq(got.load() + s.availablePermits(), give, "late.conservation");
    c.ev("late_grants", (uint64_t) got.load());
}
// A crowd empties the pool without ever waiting: exactly P permits are handed out, singly and in batches.
WORKLOAD(crowd, 200, 4000) {
    int P = 20 + c.r.upto(200), n = 2 + c.r.upto(5), top = c.r.chance(60) ? 1 : 1 + c.r.upto(4);
    OP("crowd", P, n, top);
    Semaphore s(P);
    std::atomic<int> got{0};
    mon::parallel(c, n, [&](int, Rng &r) {
        for (;;) {
            int k = 1 + r.upto(top);
            if (tryNow(s, r, k)) { got.fetch_add(k, std::memory_order_relaxed); if (r.chance(10)) { got.fetch_sub(k, std::memory_order_relaxed); give(s, r, k); } }
            else if (k == 1) return;
        }
    });
    c.eq(got.load() + s.availablePermits(), P, "crowd.conservation");
    c.ev("crowd_grants", (uint64_t) got.load());
}
// Short mixed histories decided by linearizability against a counter.
struct Op : mon::Timed { int kind, k, res; };
WORKLOAD(linear, 300, 6000) {
    int n = 2 + c.r.upto(3), each = 2 + c.r.upto(3), init = c.r.upto(4);
    OP("linear", n, each, init);
    Semaphore s(init);
    std::vector<std::vector<Op>> per((size_t) n);
    for (auto &v : per) for (int k = 0; k < each; ++k) { Op o; o.kind = c.r.upto(5); o.k = c.r.upto(4); o.res = 0; v.push_back(o); }
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (Op &o : per[(size_t) i]) {
            o.call = mon::now();
            switch (o.kind) {
                case 0: o.res = tryNow(s, r, o.k); break;
                case 1: o.res = s.tryAcquire(o.k, 1); break;
                case 2: case 3: give(s, r, o.k); break;
                default: o.res = s.availablePermits();
            }
            o.ret = mon::now();
        }
    }, 40);
    std::vector<Op> all;
    for (auto &v : per) all.insert(all.end(), v.begin(), v.end());
    Op fin; fin.kind = 4; fin.k = 0; fin.call = mon::now(); fin.res = s.availablePermits(); fin.ret = mon::now();
    all.push_back(fin);
    auto ok = mon::linearizable<int, Op>(all, init, [](int &p, const Op &o) {
        switch (o.kind) {
            case 0: case 1: if (o.res) { if (p < o.k) return false; p -= o.k; return true; } return p < o.k || o.kind == 1;   // a timed failure may have seen the count too low earlier
            case 2: case 3: p += o.k; return true;
            default: return p == o.res;
        }
    }, [](const int &p) { return std::to_string(p); });
    Str d;
    for (Op &o : all) d += show((int) o.call) + "-" + show((int) o.ret) + ":" + show(o.kind) + "(" + show(o.k) + ")=" + show(o.res) + " ";
    c.check(ok, "not-linearizable", "init " + show(init) + " " + d);
    c.ev("histories_checked"); c.ev("overlapping_pairs", mon::overlaps(all));
    c.sigx = mon::mix(c.sigx ^ mon::hstr(d));
}
// Misuse: negative counts are refused and change nothing.
WORKLOAD(negative, 200, 2000) {
    int P = c.r.upto(5), k = -1 - c.r.upto(5), w = c.r.upto(4);
    OP("negative", P, k, w);
    Semaphore s(P);
    Str e;
    try {
        switch (w) { case 0: s.acquire(k); break; case 1: s.release(k); break; case 2: s.tryAcquire(k); break; default: s.tryAcquire(k, 5); }
        e = "accepted";
    } catch (IllegalArgumentException &) { e = "IllegalArgumentException"; }
    c.eq(e, Str("IllegalArgumentException"), "Semaphore.negative-count");
    c.eq(s.availablePermits(), P, "Semaphore.negative-count-effect");
    c.ev("rejected");
    s.acquire(0); c.check(s.tryAcquire(0) && s.tryAcquire(0, 10), "Semaphore.zero", "refused"); s.release(0);
    c.eq(s.availablePermits(), P, "Semaphore.zero");
    for (int q = P; q-- > 0;) { c.check(s.tryAcquire(), "Semaphore.tryAcquire", "refused"); c.eq(s.availablePermits(), q, "Semaphore.availablePermits"); }
    c.check(!s.tryAcquire() && !s.tryAcquire(1, 0), "Semaphore.tryAcquire", "granted from nothing");
    s.release(7); s.acquire(3); c.eq(s.availablePermits(), 4, "Semaphore.availablePermits");
    c.check(s.tryAcquire(4, 9223372036854775807L), "Semaphore.tryAcquire", "refused");
    Semaphore d; c.eq(d.availablePermits(), 0, "Semaphore()");
}
MON_MAIN
