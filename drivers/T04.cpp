// T04: ConcurrentLinkedQueue: exactly-once delivery, per-producer order.
#include "tok.hpp"
#include "../mon/conc.hpp"
using mon::Ctx;
using mon::Rng;
template<class E> using CLQ = Java::Util::Concurrent::ConcurrentLinkedQueue<E>;
typedef Java::Lang::String S;
template<class E> struct Enc;
template<> struct Enc<long> { static long mk(int p, int k) { return (p + 1) * 1000000L + k; } static long id(long e) { return e; } };
template<> struct Enc<S> { static S mk(int p, int k) { return J(std::to_string((p + 1) * 1000000L + k) + "--------------------------------"); } static long id(const S &e) { Str t = e.toSTLString(); if (t.empty()) return 0; if (t.size() != 39 || t.substr(7) != Str(32, '-')) return -1; return atol(t.c_str()); } };
template<> struct Enc<Tok> { static Tok mk(int p, int k) { return Tok((p + 1) * 1000000 + k); } static long id(const Tok &e) { return e == Tok() ? 0 : e.v; } };

// an element that is moved out without a chance of throwing takes another way through the queue than one that may throw
struct Swift : Tok { Swift(long x = 0) : Tok(x) {} Swift(const Swift &) = default; Swift(Swift &&o) noexcept : Tok(o) {} Swift &operator=(const Swift &) = default; Swift &operator=(Swift &&o) noexcept { Tok::operator=(o); return *this; } };
template<> struct Enc<Swift> { static Swift mk(int p, int k) { return Swift((p + 1) * 1000000 + k); } static long id(const Swift &e) { return e == Tok() ? 0 : e.v; } };

template<class E> static void flow(Ctx &c) {
    int P = 1 + c.r.upto(4), C = 1 + c.r.upto(3), each = 5 + c.r.upto(c.r.chance(20) ? 600 : 80), pre = c.r.chance(30) ? c.r.upto(20) : 0;
    int mixed = c.r.chance(30) ? 1 : 0;               // producers also consume
    OP("flow", P, C, each, pre, mixed);
    long before = Tok::live();
    {
        CLQ<E> q;
        for (int k = 0; k < pre; ++k) q.add(Enc<E>::mk(P, k));
        std::vector<std::vector<long>> got((size_t) (P + C));
        std::atomic<int> done{0};
        std::atomic<long> empties{0}, taken{0};
        mon::parallel(c, P + C, [&](int i, Rng &r) {
            auto &g = got[(size_t) i];
            auto poll = [&]() {
                long id = Enc<E>::id(q.poll());
                if (id == 0) { empties.fetch_add(1, std::memory_order_relaxed); return false; }
                g.push_back(id); taken.fetch_add(1, std::memory_order_relaxed);
                return true;
            };
            if (i < P) {
                for (int k = 0; k < each; ++k) {
                    bool ok = r.chance(70) ? q.add(Enc<E>::mk(i, k)) : q.offer(Enc<E>::mk(i, k));
                    if (!ok) throw mon::Violation{"add-refused", ""};
                    if (r.chance(10)) mon::maybeDelay();
                    if (mixed && r.chance(30)) poll();
                }
                done.fetch_add(1, std::memory_order_release);
                return;
            }
            for (;;) {
                bool over = done.load(std::memory_order_acquire) == P;
                bool any = poll();
                if (r.chance(5)) { int s = q.size(); if (s < 0 || s > P * each + pre) throw mon::Violation{"size-range", show(s)}; (void) q.isEmpty(); }
                if (over && !any) break;              // every add had returned before this poll was called
                if (!any && r.chance(30)) sched_yield();
            }
        }, 20);
        long total = (long) P * each + pre;
        // whatever is left is still in the queue, in order
        c.eq((int) q.size(), (int) (total - taken.load()), "queue.size-at-rest");
        c.eq((bool) q.isEmpty(), total == taken.load(), "queue.isEmpty-at-rest");
        std::vector<long> rest;
        for (long k = taken.load(); k < total; ++k) rest.push_back(Enc<E>::id(q.poll()));
        got.push_back(rest);
        c.check(rest.empty() || C == 0, "queue.empty-poll-with-content", show((int) rest.size()) + " elements left after a consumer found the queue empty");
        c.check(Enc<E>::id(q.poll()) == 0, "queue.poll-empty", "an element out of an empty queue");
        c.eq((int) q.size(), 0, "queue.size-empty");
        std::map<long, int> seen;
        uint64_t sig = 0, switches = 0;
        for (auto &g : got) {
            std::map<long, long> last; long lastp = -1;
            for (long id : g) {
                long p = id / 1000000 - 1, k = id % 1000000;
                c.check(id > 0 && p >= 0 && (p < P ? k < each : p == P && k < pre), "queue.invented", show(id));
                c.check(++seen[id] == 1, "queue.duplicate", show(id));
                long prev = last.count(p) ? last[p] : -1;
                c.check(prev < k, "queue.producer-order", "producer " + show(p) + ": " + show(prev) + " before " + show(k));
                last[p] = k; if (p != lastp) ++switches; lastp = p;
                sig = mon::mix(sig ^ (uint64_t) id);
            }
            sig = mon::mix(sig + 1);
        }
        c.eq((long) seen.size(), total, "queue.lost");
        c.ev("delivered", (uint64_t) total); c.ev("empty_polls", (uint64_t) empties.load()); c.ev("producer_switches", switches);
        if (mixed) c.ev("producing_consumers");
        c.sigx = mon::mix(c.sigx ^ sig);
        int left = c.r.upto(5);                        // destroyed with content
        for (int k = 0; k < left; ++k) q.add(Enc<E>::mk(0, k));
    }
    c.eq(Tok::live(), before, "queue.element-balance");
}
WORKLOAD(longs, 4000, 4000) { flow<long>(c); }
WORKLOAD(strings, 2000, 3000) { flow<S>(c); }
WORKLOAD(tracked, 2000, 3000) { flow<Tok>(c); }
WORKLOAD(swift, 2000, 3000) { flow<Swift>(c); }
// One thread: plain FIFO.
template<class E> static void fifo(Ctx &c) {
    CLQ<E> q; std::deque<long> m;
    int steps = 10 + c.r.size(200), k = 0, bias = 2 + c.r.upto(6);
    for (int i = 0; i < steps; ++i) {
        if (c.r.upto(10) < bias) { OP("add", k); c.check(c.r.chance(50) ? q.add(Enc<E>::mk(0, k)) : q.offer(Enc<E>::mk(0, k)), "queue.add", "false"); m.push_back(Enc<E>::id(Enc<E>::mk(0, k))); ++k; }
        else if (c.r.chance(3)) { OP("clear"); q.clear(); m.clear(); c.ev("clears"); }
        else { OP("poll"); long e = Enc<E>::id(q.poll()); if (m.empty()) { c.eq(e, 0L, "queue.poll-empty"); c.ev("empty_polls"); } else { c.eq(e, m.front(), "queue.fifo"); m.pop_front(); } }
        c.eq((int) q.size(), (int) m.size(), "queue.size"); c.eq((bool) q.isEmpty(), m.empty(), "queue.isEmpty");
    }
}
WORKLOAD(fifo_long, 400, 10000) { fifo<long>(c); }
WORKLOAD(fifo_string, 400, 10000) { fifo<S>(c); }
WORKLOAD(fifo_tracked, 400, 10000) { long before = Tok::live(); fifo<Tok>(c); c.eq(Tok::live(), before, "queue.element-balance"); }
WORKLOAD(fifo_swift, 400, 10000) { long before = Tok::live(); fifo<Swift>(c); c.eq(Tok::live(), before, "queue.element-balance"); }
// More elements waiting than one index of blocks holds, drained and refilled so that the index wraps around.
template<class E> static void backlog(Ctx &c) {
    CLQ<E> q; std::deque<long> m;
    int k = 0;
    OP("backlog");
    for (int round = 2 + c.r.upto(5); round > 0; --round) {
        int in = c.r.upto(c.r.chance(50) ? 5000 : 1500), out = c.r.upto(c.r.chance(50) ? 5000 : 1500);
        OP("add", in); OP("poll", out);
        for (int i = 0; i < in; ++i, ++k) { q.add(Enc<E>::mk(0, k)); m.push_back(Enc<E>::id(Enc<E>::mk(0, k))); }
        c.eq((int) q.size(), (int) m.size(), "queue.size");
        c.ev("largest_backlogs", m.size() > 1024 ? 1 : 0);
        for (int i = 0; i < out; ++i) { long e = Enc<E>::id(q.poll()), want = m.empty() ? 0L : m.front(); if (e != want) c.eq(e, want, "queue.fifo"); if (!m.empty()) m.pop_front(); }
        c.eq((int) q.size(), (int) m.size(), "queue.size");
        if (c.r.chance(15)) { OP("clear"); q.clear(); m.clear(); }
    }
    for (; !m.empty() && c.r.chance(99); m.pop_front()) { long e = Enc<E>::id(q.poll()); if (e != m.front()) c.eq(e, m.front(), "queue.fifo"); }
}
WORKLOAD(backlog_long, 120, 3000) { backlog<long>(c); }
WORKLOAD(backlog_tracked, 40, 1000) { long before = Tok::live(); backlog<Tok>(c); c.eq(Tok::live(), before, "queue.element-balance"); }
// Many threads alive at once, each with elements of its own, and waves of threads that come and go.
WORKLOAD(many_threads, 60, 1200) {
    int n = 18 + c.r.upto(50), each = 1 + c.r.upto(12), waves = 1 + c.r.upto(3);
    OP("many_threads", n, each, waves);
    CLQ<long> q, other;
    std::map<long, int> seen;
    auto note = [&](long id) { c.check(id > 0 && id / 1000000 <= n && id % 1000000 < waves * each, "queue.invented", show(id)); c.check(++seen[id] == 1, "queue.duplicate", show(id)); };
    for (int w = 0; w < waves; ++w) {
        std::vector<std::vector<long>> got((size_t) n);
        std::atomic<int> here{0};
        mon::parallel(c, n, [&](int i, Rng &r) {
            for (int k = 0; k < each; ++k) {
                q.add(Enc<long>::mk(i, w * each + k));
                if (!k) { other.add(Enc<long>::mk(i, w)); here.fetch_add(1, std::memory_order_acq_rel); while (here.load(std::memory_order_acquire) < n) sched_yield(); }   // every thread has its place before any goes on
                if (r.chance(30)) { long id = q.poll(); if (id) got[(size_t) i].push_back(id); }
            }
        }, 0);
        for (auto &g : got) { std::map<long, long> last; for (long id : g) { note(id); long &l = last[id / 1000000 * 10 + id % 1000000 / each]; c.check(l <= id, "queue.producer-order", show(l) + " before " + show(id)); l = id; } }
    }
    c.eq((int) (q.size() + (int) seen.size()), n * each * waves, "queue.size-at-rest");
    c.eq((int) other.size(), n * waves, "queue.size-at-rest");
    std::map<long, long> last;
    for (long id; (id = q.poll()) != 0;) { note(id); long &l = last[id / 1000000 * 10 + id % 1000000 / each];   /* a thread of another wave is another producer */ c.check(l < id, "queue.producer-order", show(l) + " before " + show(id)); l = id; }
    c.eq((int) seen.size(), n * each * waves, "queue.lost");
    std::set<long> o;
    for (long id; (id = other.poll()) != 0;) o.insert(id);
    c.eq((int) o.size(), n * waves, "queue.lost");
    c.ev("threads_with_elements", (uint64_t) (n * waves));
}
// Blocks going back and forth between producers and consumers: the queue gives back all its memory, whatever happened.
static size_t memory() { return &__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
// what is still allocated beyond `before`; a block of the queue has more than 256 bytes, and what the watchdog holds for a moment goes away
static size_t grown(size_t before) {
    size_t least = (size_t) -1;
    for (int i = 0; i < 20; ++i) {
        size_t now = memory(), more = now > before ? now - before : 0;
        if (more < least) least = more;
        if (least < 256) return 0;
        usleep(5000);
    }
    return least;
}
static void churn(Ctx &c, int n, int each, int left, std::atomic<long> &sum) {
    CLQ<long> q;
    mon::parallel(c, n, [&](int, Rng &r) {
        long mine = 0;
        for (int k = 0, burst = 0; k < each; ++k) {
            if (!burst--) { burst = r.upto(70); if (r.chance(20)) sched_yield(); }
            if (burst & 1) { q.add(1); ++mine; } else mine -= q.poll();
        }
        sum.fetch_add(mine, std::memory_order_relaxed);
    }, 0);
    for (long v; (v = q.poll()) != 0;) sum.fetch_sub(v, std::memory_order_relaxed);
    for (int k = 0; k < left; ++k) q.add(1);           // destroyed with content
}
WORKLOAD(memory_returned, 600, 8000) {
    int n = 2 + c.r.upto(6), each = 500 + c.r.upto(3000), left = c.r.chance(50) ? 0 : c.r.upto(1500);
    OP("memory_returned", n, each, left);
    std::atomic<long> sum{0};
    { CLQ<long> warm; warm.add(1); }
    churn(c, n, 10, 0, sum);
    size_t before = memory();
    churn(c, n, each, left, sum);
    c.eq(sum.load(), 0L, "queue.conservation");
    c.eq(grown(before), (size_t) 0, "queue.memory-lost");
    c.ev("memory_watched", before > 0 ? 1 : 0);
}
// A queue whose content stays small does not grow, however many elements have passed through it.
WORKLOAD(memory_steady, 60, 1500) {
    int content = 1 + c.r.upto(c.r.chance(50) ? 60 : 600), burst = 1 + c.r.upto(content);
    OP("memory_steady", content, burst);
    CLQ<long> q;
    auto pass = [&](int elements) { for (int k = 0; k < elements; k += burst) { for (int i = 0; i < burst; ++i) q.add(1); for (int i = 0; i < burst; ++i) (void) q.poll(); } };
    for (int k = 0; k < content; ++k) q.add(1);
    pass(4000 + 20 * content);
    size_t before = memory();
    pass(40000 + 200 * content);
    c.eq((int) q.size(), content, "queue.size");
    c.eq(grown(before), (size_t) 0, "queue.memory-grows");
}
MON_MAIN
