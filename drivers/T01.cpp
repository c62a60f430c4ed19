// LINK: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// T01: Thread life cycle: bodies run exactly once, join publishes their effects, queries are consistent.
#define CONC_WRAP
#include "lib.hpp"
#include "../mon/conc.hpp"
using mon::Ctx;
using mon::Rng;
using Java::Lang::Thread;
using Java::Lang::Runnable;
static double ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec * 1e3 + (double) t.tv_nsec / 1e6; }

// what a body leaves behind; plain fields on purpose (join has to publish them)
struct Work {
    std::atomic<int> runs{0};
    long sum = 0;
    Str text;
    unsigned long tid = 0;
    Thread *self = nullptr;
    int pause = 0;
    void body() {
        runs.fetch_add(1, std::memory_order_relaxed);
        tid = (unsigned long) pthread_self();
        self = Thread::currentThread();
        for (int i = 0; i < 20; ++i) { sum += i; text += (char) ('a' + i); }
        if (pause == 1) sched_yield();
        else if (pause > 1) usleep((useconds_t) pause);
        sum += 1000;
    }
};
struct Target : Runnable { Work *w; explicit Target(Work *x) : w(x) {} void run() override { w->body(); } };
struct Sub : Thread { Work *w; explicit Sub(Work *x) : w(x) {} ~Sub() {} void run() override { w->body(); } };
enum Kind { TARGET, FUNC, SUBCLASS };
struct Made {
    Work w;
    Target target{&w};
    std::unique_ptr<Thread> t;
    Made(int kind, int pause) {
        w.pause = pause;
        if (kind == TARGET) t.reset(new Thread(&target));
        else if (kind == FUNC) { Work *p = &w; t.reset(new Thread([p]() { p->body(); })); }
        else t.reset(new Sub(&w));
    }
};
static int pauseOf(Rng &r) { return r.chance(40) ? 0 : r.chance(50) ? 1 : 2 + r.upto(600); }
static void finished(Ctx &c, Made &m, Thread *t) {
    c.eq(m.w.runs.load(), 1, "Thread.runs-once");
    c.eq(m.w.sum, 1190L, "Thread.join-publishes");
    c.eq(m.w.text, Str("abcdefghijklmnopqrst"), "Thread.join-publishes");
    if (t) {
        c.check(m.w.self == t, "Thread.currentThread", "not the running thread");
        c.check((bool) !t->isAlive(), "Thread.isAlive-after-join", "still alive");
        c.check(t->getId() == m.w.tid, "Thread.getId", "differs from the id of the thread that ran the body");
    }
}
static std::function<void()> watcher(Thread *t, std::vector<int> *seen, int n) { return [=]() { for (int i = 0; i < n; ++i) { seen->push_back(t->isAlive() ? 1 : 0); sched_yield(); } }; }

// One thread, several joiners and observers around its start.
WORKLOAD(joiners, 250, 5000) {
    int kind = c.r.upto(3), n = 1 + c.r.upto(4), obs = c.r.upto(2);
    Made m(kind, pauseOf(c.r));
    OP("joiners", kind, n, obs, m.w.pause);
    Thread *t = m.t.get();
    std::vector<std::vector<int>> seen((size_t) obs);
    std::vector<Str> names;
    mon::parallel(c, n + obs + 1, [&](int i, Rng &r) {
        if (i == 0) {
            if (r.chance(50)) usleep((useconds_t) r.upto(200));
            t->setName(J("first")); t->start(); t->setName(J("second"));
            t->join();
            if (t->isAlive()) throw mon::Violation{"Thread.isAlive-after-join", ""};
            if (m.w.sum != 1190) throw mon::Violation{"Thread.join-publishes", show(m.w.sum)};
            return;
        }
        if (i <= n) {                                // joins that may come before, during or after the run
            for (int k = 0; k < 1 + r.upto(3); ++k) {
                if (r.chance(30)) t->join(1 + r.upto(2)); else { t->join(); }
                Str nm = t->getName().toSTLString();
                if (nm != "" && nm != "first" && nm != "second") throw mon::Violation{"Thread.name-torn", esc(nm)};
            }
            return;
        }
        watcher(t, &seen[(size_t) (i - n - 1)], 30)();
    });
    t->join();
    finished(c, m, t);
    c.eq(N(t->getName()), Str("second"), "Thread.getName");
    for (auto &s : seen) {                           // 0* 1* 0*
        int ups = 0;
        for (size_t i = 0; i < s.size(); ++i) if (s[i] && (i == 0 || !s[i - 1])) ++ups;
        c.check(ups <= 1, "Thread.isAlive-revived", show(ups));
        for (int v : s) c.sigx = mon::mix(c.sigx ^ (uint64_t) v);
        c.ev("alive_samples", s.size());
    }
    c.ev(kind == SUBCLASS ? "subclass_threads" : kind == FUNC ? "function_threads" : "target_threads");
}
// Many threads created, started, joined or simply destroyed, in any order.
WORKLOAD(crowd, 120, 2500) {
    int n = 2 + c.r.upto(10);
    OP("crowd", n);
    std::vector<std::unique_ptr<Made>> ms;
    std::vector<int> kinds;
    for (int i = 0; i < n; ++i) { kinds.push_back(c.r.upto(3)); ms.emplace_back(new Made(kinds.back(), pauseOf(c.r))); }
    for (auto &m : ms) { m->t->start(); if (c.r.chance(20)) m->t->join(); }
    std::vector<int> idx; for (int i = 0; i < n; ++i) idx.push_back(i);
    for (int i = n - 1; i > 0; --i) std::swap(idx[(size_t) i], idx[(size_t) c.r.upto(i + 1)]);
    for (int i : idx) {
        Made &m = *ms[(size_t) i];
        OP("end", i, kinds[(size_t) i]);
        if (kinds[(size_t) i] != SUBCLASS && c.r.chance(40)) { m.t.reset(); c.ev("destroyed_unjoined"); finished(c, m, nullptr); }   // the destructor waits for the body
        else { if (c.r.chance(40)) { while (m.t->isAlive()) { m.t->join(1); } m.t->join(); c.ev("timed_joins"); } else m.t->join(); finished(c, m, m.t.get()); m.t.reset(); }
    }
    c.ev("threads_joined", (uint64_t) n);
}
// Starting again - concurrently, while alive, or after the end - never runs the body twice and never kills the process.
WORKLOAD(restart, 150, 3000) {
    int kind = c.r.upto(3), n = 2 + c.r.upto(3);
    Made m(kind, pauseOf(c.r));
    OP("restart", kind, n, m.w.pause);
    Thread *t = m.t.get();
    std::atomic<int> refused{0};
    mon::parallel(c, n, [&](int, Rng &r) {
        for (int k = 0; k < 2; ++k) { try { t->start(); } catch (IllegalArgumentException &) { refused.fetch_add(1, std::memory_order_relaxed); } if (r.chance(40)) t->join(); }
    });
    t->join();
    finished(c, m, t);
    try { t->start(); } catch (IllegalArgumentException &) { }
    t->join();
    finished(c, m, t);
    c.ev("repeated_starts", (uint64_t) (2 * n));
}
// Timed joins while the body is held: they come back, the thread stays alive, and the last join sees the end.
WORKLOAD(timedjoin, 40, 800) {
    int wait = 1 + c.r.upto(12), n = 1 + c.r.upto(2);
    OP("timedjoin", wait, n);
    std::mutex gate; gate.lock();
    long seen = 0;
    Thread t([&]() { std::lock_guard<std::mutex> g(gate); seen = 42; });
    t.start();
    c.check((bool) t.isAlive(), "Thread.isAlive-while-running", "not alive");
    std::atomic<int> early{0}, dead{0};
    mon::parallel(c, n, [&](int, Rng &) {
        double a = ms();
        t.join(wait);
        if (ms() - a + 0.05 < wait) early.fetch_add(1, std::memory_order_relaxed);
        if (!t.isAlive()) dead.fetch_add(1, std::memory_order_relaxed);
    });
    c.eq(early.load(), 0, "Thread.join(millis)-early"); c.eq(dead.load(), 0, "Thread.isAlive-while-running");
    gate.unlock();
    if (c.r.chance(50)) { while (t.isAlive()) t.join(5); } else t.join();
    c.eq(seen, 42L, "Thread.join-publishes");
    c.check((bool) !t.isAlive(), "Thread.isAlive-after-join", "still alive");
    t.join(); t.join(5);
    c.ev("held_joins", (uint64_t) n);
}
// A detached thread outlives its object without touching it; misuse of detach is an exception.
WORKLOAD(detach, 120, 2500) {
    int late = c.r.upto(3), pause = pauseOf(c.r);
    bool joinFirst = c.r.chance(40);
    OP("detach", late, pause, joinFirst);
    struct Shared { std::atomic<int> runs{0}; std::mutex mu; long value = 0; bool done = false; };
    auto sh = std::make_shared<Shared>();
    {
        std::unique_ptr<Thread> t(new Thread([sh, pause]() {
            sh->runs.fetch_add(1, std::memory_order_relaxed);
            if (pause) usleep((useconds_t) pause);
            std::lock_guard<std::mutex> g(sh->mu);
            sh->value = 7; sh->done = true;
        }));
        if (late == 2) { c.check(thrown([&]() { t->detach(); }) != "", "Thread.detach-unstarted", "accepted"); }
        t->start();
        if (late == 1) usleep((useconds_t) c.r.upto(300));
        t->detach();
        c.check(thrown([&]() { t->detach(); }) != "", "Thread.detach-twice", "accepted");
        if (joinFirst) { t->join(); std::lock_guard<std::mutex> g(sh->mu); c.eq(sh->value, 7L, "Thread.join-publishes"); c.check((bool) !t->isAlive(), "Thread.isAlive-after-join", "still alive"); }
    }                                                // the object is gone, the body may still be running
    c.ev(joinFirst ? "detached_joined" : "detached_abandoned");
    double a = ms();
    for (;;) { { std::lock_guard<std::mutex> g(sh->mu); if (sh->done) break; } if (ms() - a > 60000) c.fail("Thread.detached-lost", "body did not finish"); usleep(50); }
    c.eq(sh->runs.load(), 1, "Thread.runs-once");
}
// currentThread, unstarted and empty threads, sleep.
WORKLOAD(identity, 150, 3000) {
    OP("identity");
    c.check(Thread::currentThread() == nullptr, "Thread.currentThread-main", "a thread object on a thread the library did not start");
    {
        Thread idle; idle.setName(J("idle")); c.eq(N(idle.getName()), Str("idle"), "Thread.getName"); c.check((bool) !idle.isAlive(), "Thread.isAlive-unstarted", "alive");
        idle.join(); idle.join(3);                   // never started: nothing to wait for
    }
    { Thread empty; empty.start(); empty.join(); c.check((bool) !empty.isAlive(), "Thread.isAlive-after-join", "still alive"); }   // no target: does nothing
    { Runnable *none = nullptr; Thread empty(none); empty.start(); empty.join(); c.check((bool) !empty.isAlive(), "Thread.isAlive-after-join", "still alive"); }
    {
        Made m(c.r.upto(3), 0);
        m.t->run();                                  // a direct call runs the body here, on this thread
        c.eq(m.w.runs.load(), 1, "Thread.run-direct"); c.check(m.w.self == nullptr && m.w.tid == (unsigned long) pthread_self(), "Thread.run-direct", "claims another thread");
        c.check((bool) !m.t->isAlive(), "Thread.isAlive-unstarted", "alive");
    }
    c.check(Thread::currentThread() == nullptr, "Thread.currentThread-main", "left behind by an earlier thread");
    Work a, b;
    Thread outer([&]() { a.body(); Thread inner([&]() { b.body(); }); inner.start(); inner.join(); if (b.self != &inner || Thread::currentThread() != &outer) a.sum = -1; });
    outer.start(); outer.join();
    c.eq(a.sum, 1190L, "Thread.nested"); c.eq(b.sum, 1190L, "Thread.nested"); c.check(a.self == &outer, "Thread.currentThread", "wrong");
    long d = c.r.upto(4); double t0 = ms(); Thread::sleep(d); c.check(ms() - t0 + 0.05 >= (double) d, "Thread.sleep-early", std::to_string(d));
    c.ev("identities");
}
// Distinct live threads have distinct ids.
WORKLOAD(ids, 60, 1200) {
    int n = 2 + c.r.upto(8);
    OP("ids", n);
    std::mutex gate; gate.lock();
    std::vector<std::unique_ptr<Thread>> ts;
    for (int i = 0; i < n; ++i) { ts.emplace_back(new Thread([&]() { std::lock_guard<std::mutex> g(gate); })); ts.back()->start(); }
    std::set<unsigned long> ids;
    for (auto &t : ts) { c.check(t->getId() != 0, "Thread.getId-started", "0"); ids.insert(t->getId()); }
    c.eq((int) ids.size(), n, "Thread.ids-distinct");
    gate.unlock();
    for (auto &t : ts) t->join();
    c.ev("live_ids", (uint64_t) n);
}
MON_MAIN
