// L04: PriorityQueue against a multiset over call histories.
#include "tok.hpp"
using mon::Ctx;
template<class E> using PQ = Java::Util::PriorityQueue<E>;
// ordering of the model = ordering of the elements' own operator<
template<class E> struct Less { bool operator()(int a, int b) const { return a < b; } };
template<> struct Less<Java::Lang::String> { bool operator()(int a, int b) const { Str x = El<Java::Lang::String>::raw(a), y = El<Java::Lang::String>::raw(b); return x < y; } };
template<class E> using Bag = std::multiset<int, Less<E>>;

template<class E> static void checkQ(Ctx &c, PQ<E> &q, const Bag<E> &m, bool deep) {
    c.eq((long) q.size(), (long) m.size(), "PriorityQueue.size");
    if (m.empty()) c.check(q.peek() == E(), "PriorityQueue.peek-empty", "not the default value");
    else c.eq(El<E>::id(q.peek()), *m.rbegin(), "PriorityQueue.peek");
    if (!deep) return;
    Bag<E> got;
    Array<E> a = q.toArray();
    for (int i = 0; i < a.length; ++i) got.insert(El<E>::id(a.get(i)));
    c.check(got == m, "PriorityQueue.toArray", "content differs from the elements added and not removed");
}
template<class E> static void drain(Ctx &c, PQ<E> &q, Bag<E> m) {
    while (!m.empty()) {
        auto top = std::prev(m.end());
        c.eq(El<E>::id(q.poll()), *top, "PriorityQueue.drain-order");
        m.erase(top);
        c.eq((long) q.size(), (long) m.size(), "PriorityQueue.size");
    }
    c.check(q.poll() == E() && q.size() == 0, "PriorityQueue.poll-empty", "not the default value");
    c.ev("drained");
}
template<class E> static void history(Ctx &c) {
    long before = Tok::live();
    {
        int ids = c.r.chance(40) ? 4 : c.r.chance(50) ? 30 : 1000;
        auto el = [&]() { return c.r.upto(ids) - ids / 4; };
        std::unique_ptr<PQ<E>> q;
        Bag<E> m;
        int ctor = c.r.upto(5);
        if (ctor == 0) { int x = el(), y = el(), z = el(), w = el(); OP("PriorityQueue{}", x, y, z, w); q.reset(new PQ<E>{El<E>::make(x), El<E>::make(y), El<E>::make(z), El<E>::make(w)}); for (int i : {x, y, z, w}) m.insert(i); }
        else if (ctor == 1) { int n = 1 + c.r.upto(20); OP("PriorityQueue", n); q.reset(new PQ<E>(n)); }
        else { OP("PriorityQueue"); q.reset(new PQ<E>()); }
        if (c.r.chance(3)) { int n = -c.r.upto(4); c.check(thrown([&]() { PQ<E> z(n); }) != "", "PriorityQueue.bad-capacity", "accepted"); }
        int steps = 4 + c.r.size(80), grow = 2 + c.r.upto(5);
        for (int k = 0; k < steps; ++k) {
            int x = el(), op = c.r.upto(grow + 9);
            if (op < grow) { OP("add", x); c.check(c.r.chance(50) ? q->add(El<E>::make(x)) : q->offer(El<E>::make(x)), "PriorityQueue.add", "false"); m.insert(x); }
            else switch (op - grow) {
                case 0: case 1: { OP("poll"); E g = q->poll(); if (m.empty()) { c.check(g == E(), "PriorityQueue.poll-empty", "not the default value"); c.ev("empty_polls"); } else { auto t = std::prev(m.end()); c.eq(El<E>::id(g), *t, "PriorityQueue.poll"); m.erase(t); } break; }
                case 2: case 3: {
                    if (!m.empty() && c.r.chance(60)) { auto it = m.begin(); std::advance(it, c.r.upto((int) m.size())); x = *it; c.ev("inner_removals"); }
                    OP("remove", x);
                    auto it = m.find(x);
                    c.eq((bool) q->remove(El<E>::make(x)), it != m.end(), "PriorityQueue.remove");
                    if (it != m.end()) m.erase(it);
                    break;
                }
                case 4: { OP("contains", x); c.eq((bool) q->contains(El<E>::make(x)), m.count(x) > 0, "PriorityQueue.contains"); break; }
                case 5: { if (!c.r.chance(20)) break; OP("clear"); q->clear(); m.clear(); break; }
                case 6: {
                    OP("copy", x);
                    PQ<E> cp(*q);
                    Bag<E> cm = m;
                    cp.add(El<E>::make(x)); cm.insert(x);
                    checkQ<E>(c, cp, cm, true);
                    checkQ<E>(c, *q, m, true);
                    if (c.r.chance(30)) { PQ<E> as; as.add(El<E>::make(1)); as = cp; checkQ<E>(c, as, cm, true); drain<E>(c, as, cm); }
                    if (c.r.chance(40)) {           // assigned from queues of any other size, also empty
                        PQ<E> o; Bag<E> om;
                        for (int i = c.r.chance(40) ? 0 : c.r.upto(12); i > 0; --i) { int y = el(); o.add(El<E>::make(y)); om.insert(y); }
                        c.ev(om.empty() ? "assigned_empty_queues" : "assigned_queues");
                        cp = o; cm = om;
                        o.add(El<E>::make(x));
                        checkQ<E>(c, cp, cm, true);
                    }
                    if (c.r.chance(50)) drain<E>(c, cp, cm);
                    break;
                }
                case 7: {                            // toArray(array): fills a big enough array, else a new one
                    int n = (int) m.size(), len = c.r.upto(n + 4);
                    OP("toArray_into", len);
                    int filler = 3;
                    Array<E> a; for (int i = 0; i < len; ++i) a.push(El<E>::make(filler));
                    Array<E> r = q->toArray(a);
                    c.eq((int) r.length, std::max(len, n), "PriorityQueue.toArray(array)-length");
                    Bag<E> got;
                    for (int i = 0; i < n; ++i) got.insert(El<E>::id(r.get(i)));
                    c.check(got == m, "PriorityQueue.toArray(array)", "content differs");
                    if (len > n) c.check(r.get(n) == E(), "PriorityQueue.toArray(array)", "no terminator");
                    for (int i = n + 1; i < len; ++i) c.eq(El<E>::id(r.get(i)), filler, "PriorityQueue.toArray(array)-tail");
                    break;
                }
                default: { Array<E> a = q->toArray(); if (a.length) { int j = c.r.upto(a.length); OP("add_equal", j); int id = El<E>::id(a.get(j)); q->add(a.get(j)); m.insert(id); c.ev("duplicates"); } }
            }
            checkQ<E>(c, *q, m, k % 8 == 7);
        }
        checkQ<E>(c, *q, m, true);
        drain<E>(c, *q, m);
    }
    tokBalance(c, before, "PriorityQueue");
}
WORKLOAD(integers, 2500, 60000) { history<Java::Lang::Integer>(c); }
WORKLOAD(strings, 2000, 50000) { history<Java::Lang::String>(c); }
WORKLOAD(tracked, 3000, 80000) { history<Tok>(c); }
WORKLOAD(large, 40, 1500) {
    PQ<Tok> q; Bag<Tok> m;
    int n = 100 + c.r.upto(400);
    OP("large", n);
    for (int i = 0; i < n; ++i) { int x = c.r.upto(1000); q.add(Tok(x)); m.insert(x); if (c.r.chance(30)) { int r = c.r.upto(1000); auto it = m.find(r); c.eq((bool) q.remove(Tok(r)), it != m.end(), "PriorityQueue.remove"); if (it != m.end()) m.erase(it); } }
    drain<Tok>(c, q, m);
}
// Batches whose order has a pattern (runs, saws, organ pipes, equal stretches), drained completely or in part.
WORKLOAD(patterns, 4000, 120000) {
    PQ<Java::Lang::Integer> q; Bag<Java::Lang::Integer> m;
    int rounds = 1 + c.r.upto(3);
    for (int b = 0; b < rounds; ++b) {
        int n = 1 + c.r.size(40), span = c.r.chance(50) ? 12 : 200, x = c.r.upto(span), kind = c.r.upto(6), step = 0;
        OP("offer_pattern", kind, n, x, span);
        for (int i = 0; i < n; ++i) {
            int e = x;
            switch (kind) {
                case 0: e = x - i; break;
                case 1: e = x + i; break;
                case 2: if (step == 0) { step = 1 + c.r.upto(6); x = c.r.upto(span); } --step; e = x--; break;            // falling runs
                case 3: if (step == 0) { step = 1 + c.r.upto(6); x = c.r.upto(span); } --step; e = x++; break;
                case 4: e = i % 2 ? x - i : x + i; break;
                default: e = c.r.upto(span);
            }
            q.add(Java::Lang::Integer(e)); m.insert(e);
        }
        if (c.r.chance(50)) for (int k = c.r.upto(n); k-- > 0;) {
            OP("poll");
            auto t = std::prev(m.end()); c.eq(q.poll().intValue(), *t, "PriorityQueue.poll"); m.erase(t);
        }
    }
    drain<Java::Lang::Integer>(c, q, m);
}
MON_MAIN
