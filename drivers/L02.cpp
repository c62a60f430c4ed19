// L02: Vector and Stack against a plain sequence over call histories.
#include "tok.hpp"
using mon::Ctx;
typedef std::vector<int> Vi;
template<class E> using Vec = Java::Util::Vector<E>;
template<class E> using Stk = Java::Util::Stack<E>;

template<class E> static void checkVec(Ctx &c, Vec<E> &v, const Vi &m, bool deep) {
    const Vec<E> &cv = v;
    c.eq((long) v.size(), (long) m.size(), "Vector.size");
    c.eq((bool) v.isEmpty(), m.empty(), "Vector.isEmpty");
    c.check(v.capacity() >= (int) m.size(), "Vector.capacity-below-size", show(v.capacity()) + " for " + show(m.size()));
    for (size_t i = 0; i < m.size(); ++i) c.eq(El<E>::id(cv[(int) i]), m[i], "Vector[]");
    if (!deep) return;
    Vi it, ci, av, cp;
    for (const E &e : v) it.push_back(El<E>::id(e));
    for (const E &e : cv) ci.push_back(El<E>::id(e));
    c.check(it == m && ci == m, "Vector.iteration", "got " + show(it) + "/" + show(ci) + " expected " + show(m));
    Array<E> a = v.toArray(), b;
    v.copyInto(b);
    for (int i = 0; i < a.length; ++i) av.push_back(El<E>::id(a.get(i)));
    for (int i = 0; i < b.length; ++i) cp.push_back(El<E>::id(b.get(i)));
    c.check(av == m && cp == m, "Vector.toArray", "got " + show(av) + "/" + show(cp) + " expected " + show(m));
    for (size_t i = 0; i < m.size(); ++i) { c.eq(El<E>::id(v.get((int) i)), m[i], "Vector.get"); c.eq(El<E>::id(v.elementAt((int) i)), m[i], "Vector.elementAt"); }
}
template<class E, bool = std::is_base_of<Java::Lang::Object, E>::value> struct RemoveObj {
    static bool can() { return true; }
    static bool run(Vec<E> &v, const E &e, bool alt) { return alt ? v.removeElement(e) : v.remove(e); }
    static bool foreign(Vec<E> &v) { return v.removeElement(Java::Lang::Object()); }
};
template<class E> struct RemoveObj<E, false> {
    static bool can() { return false; }
    static bool run(Vec<E> &, const E &, bool) { return false; }
    static bool foreign(Vec<E> &) { return false; }
};
static const char *OOR = "IllegalArgumentException";

// one step of a Vector history; shared by Vector and Stack workloads
template<class E> struct Hist {
    Ctx &c; Vec<E> &v; Vi m; int inc; int cap; int ids;
    int el() { return c.r.upto(ids) - ids / 4; }
    void threw(const Str &ex, bool ok, const char *what, int i) {
        c.check(ex == (ok ? "" : OOR), Str("Vector.") + what + "-bounds", "index " + show(i) + " of " + show(m.size()) + ": " + (ex == "" ? "returned" : "threw " + ex));
        if (!ok) c.ev("rejected_indexes");
    }
    void need(int n) { if (n > cap) { cap = std::max(n, inc > 0 ? cap + inc : cap * 2); c.ev("growths"); } }
    void capEq(const char *what) { c.eq(v.capacity(), cap, Str("Vector.capacity-after-") + what); }
    void resync() { cap = v.capacity(); }
    template<class F> void withList(const Vi &l, F f) {
        auto e = [&](size_t i) { return El<E>::make(l[i]); };
        switch (l.size()) {
            case 0: f(std::initializer_list<E>{}); break;
            case 1: f(std::initializer_list<E>{e(0)}); break;
            case 2: f(std::initializer_list<E>{e(0), e(1)}); break;
            case 3: f(std::initializer_list<E>{e(0), e(1), e(2)}); break;
            default: f(std::initializer_list<E>{e(0), e(1), e(2), e(3)}); break;
        }
    }
    void step() {
        int n = (int) m.size(), i = (int) c.r.range(-2, n + 2), x = el(), op = c.r.upto(32);
        if (c.r.chance(5)) i = c.r.chance(50) ? INT32_MIN : INT32_MAX;
        bool in = i >= 0 && i < n, alt = c.r.chance(50);
        Vi l; for (int k = c.r.upto(5); k > 0; --k) l.push_back(el());
        switch (op) {
            case 0: case 1: case 2: { OP("add", x); if (alt) v.addElement(El<E>::make(x)); else c.check(v.add(El<E>::make(x)), "Vector.add", "false"); m.push_back(x); need(n + 1); capEq("add"); break; }
            case 3: case 4: { OP("add_at", i, x); bool ok = i >= 0 && i <= n; Str ex = thrown([&]() { if (alt) v.insertElementAt(El<E>::make(x), i); else v.add(i, El<E>::make(x)); }); threw(ex, ok, "add(index)", i); if (ok) { m.insert(m.begin() + i, x); need(n + 1); } capEq("insert"); break; }
            case 5: { OP("addAll", l); bool r = false; withList(l, [&](const std::initializer_list<E> &q) { r = v.addAll(q); }); c.eq(r, !l.empty(), "Vector.addAll-result"); m.insert(m.end(), l.begin(), l.end()); resync(); break; }
            case 6: { OP("addAll_at", i, l); if (l.empty() && !(i >= 0 && i <= n)) break; bool r = false, ok = i >= 0 && i <= n;
                Str ex = thrown([&]() { withList(l, [&](const std::initializer_list<E> &q) { r = v.addAll(i, q); }); }); threw(ex, ok, "addAll(index)", i);
                if (ok) { c.eq(r, !l.empty(), "Vector.addAll-result"); m.insert(m.begin() + i, l.begin(), l.end()); } resync(); break; }
            case 7: { OP("get", i); int g = 0; Str ex = thrown([&]() { const Vec<E> &cv = v; int how = c.r.upto(4); g = El<E>::id(how == 0 ? v.get(i) : how == 1 ? v.elementAt(i) : how == 2 ? v[i] : cv[i]); }); threw(ex, in, "get", i); if (in) c.eq(g, m[i], "Vector.get"); break; }
            case 8: case 9: { OP("set", i, x); int g = in ? m[i] : 0; Str ex = thrown([&]() { if (alt) v.setElementAt(El<E>::make(x), i); else g = El<E>::id(v.set(i, El<E>::make(x))); }); threw(ex, in, "set", i); if (in) { c.eq(g, m[i], "Vector.set-result"); m[i] = x; } break; }
            case 10: case 11: { OP("remove_at", i); int g = in ? m[i] : 0; Str ex = thrown([&]() { if (alt) v.removeElementAt(i); else g = El<E>::id(v.remove(i)); }); threw(ex, in, "remove", i); if (in) { c.eq(g, m[i], "Vector.remove-result"); m.erase(m.begin() + i); } capEq("remove"); break; }
            case 12: case 13: { if (!RemoveObj<E>::can()) break; OP("remove", x); auto p = std::find(m.begin(), m.end(), x); c.eq(RemoveObj<E>::run(v, El<E>::make(x), alt), p != m.end(), "Vector.remove(element)"); if (p != m.end()) m.erase(p);
                if (c.r.chance(20)) c.check(!RemoveObj<E>::foreign(v), "Vector.remove(foreign)", "true"); break; }
            case 14: { OP("indexOf", x); auto p = std::find(m.begin(), m.end(), x); c.eq(v.indexOf(El<E>::make(x)), p == m.end() ? -1 : (int) (p - m.begin()), "Vector.indexOf"); c.eq((bool) v.contains(El<E>::make(x)), p != m.end(), "Vector.contains"); break; }
            case 15: { OP("indexOf_from", x, i); int w = -1, g = 0; if (in) for (int j = n - 1; j >= i; --j) if (m[j] == x) w = j; Str ex = thrown([&]() { g = v.indexOf(El<E>::make(x), i); }); threw(ex, in, "indexOf(from)", i); if (in) c.eq(g, w, "Vector.indexOf(from)"); break; }
            case 16: { OP("lastIndexOf", x); int w = -1; for (int j = 0; j < n; ++j) if (m[j] == x) w = j; c.eq(v.lastIndexOf(El<E>::make(x)), w, "Vector.lastIndexOf"); break; }
            case 17: { OP("lastIndexOf_from", x, i); int w = -1, g = 0; if (in) for (int j = 0; j <= i; ++j) if (m[j] == x) w = j; Str ex = thrown([&]() { g = v.lastIndexOf(El<E>::make(x), i); }); threw(ex, in, "lastIndexOf(from)", i); if (in) c.eq(g, w, "Vector.lastIndexOf(from)"); break; }
            case 18: { OP("containsAll", l); bool w = true, r = false; for (int q : l) if (std::find(m.begin(), m.end(), q) == m.end()) w = false; withList(l, [&](const std::initializer_list<E> &q) { r = v.containsAll(q); }); c.eq(r, w, "Vector.containsAll"); break; }
            case 19: case 20: { bool keep = op == 20; if (keep && !c.r.chance(30)) break; OP(keep ? "retainAll" : "removeAll", l); Vi w; for (int q : m) if ((std::find(l.begin(), l.end(), q) != l.end()) == keep) w.push_back(q);
                bool r = false; withList(l, [&](const std::initializer_list<E> &q) { r = keep ? v.retainAll(q) : v.removeAll(q); }); c.eq(r, w.size() != m.size(), keep ? "Vector.retainAll-result" : "Vector.removeAll-result"); m = w; break; }
            case 21: { if (!c.r.chance(25)) break; OP("clear"); if (alt) v.clear(); else v.removeAllElements(); m.clear(); capEq("clear"); break; }
            case 22: { int k = c.r.upto(2 * n + 30) - 3; OP("ensureCapacity", k); v.ensureCapacity(k); if (k > 0) need(k); capEq("ensureCapacity"); break; }
            case 23: { if (!alt) break; OP("trimToSize"); v.trimToSize(); cap = n; capEq("trimToSize"); break; }
            case 24: { int k = c.r.upto(n + 8) - 2; OP("setSize", k); Str ex = thrown([&]() { v.setSize(k); }); threw(ex, k >= 0, "setSize", k); if (k >= 0) { if (k > n) need(k); while ((int) m.size() > k) m.pop_back(); int q = n; if (k > n) { E d = E(); Vi dm; for (; q < k; ++q) { c.check(v[q] == d, "Vector.setSize-default", "new element not default"); v[q] = El<E>::make(x); m.push_back(x); } } } capEq("setSize"); break; }
            case 25: {                             // copies are independent and equal until changed
                OP("clone", x);
                Vec<E> cp = alt ? v.clone() : Vec<E>(v);
                checkVec(c, cp, m, true);
                c.check(cp.equals(v) && v.equals(cp), "Vector.equals-clone", "a clone differs from its original");
                Vi cm = m;
                cp.add(El<E>::make(x)); cm.push_back(x);
                c.check(!cp.equals(v), "Vector.equals", "vectors of different size are equal");
                if (n) { int w = cm[n / 2] == 1 ? 2 : 1; cp.set(n / 2, El<E>::make(w)); cm[n / 2] = w; cp.remove(n); cm.pop_back(); c.check(!cp.equals(v) && !v.equals(cp), "Vector.equals", "different vectors are equal"); cp.removeElementAt(0); cm.erase(cm.begin()); }
                checkVec(c, cp, cm, true);
                int c0 = cp.capacity();                              // a copy keeps its growth policy
                while (cp.size() < c0) { cp.add(El<E>::make(0)); cm.push_back(0); }
                cp.add(El<E>::make(0)); cm.push_back(0);
                c.eq(cp.capacity(), std::max(c0 + 1, inc > 0 ? c0 + inc : 2 * c0), "Vector.capacity-of-copy");
                if (c.r.chance(40)) { OP("assign"); v = cp; m = cm; resync(); }
                break;
            }
            case 26: { OP("self_assign"); Vec<E> &r = v; v = r; break; }
            case 27: { OP("assign_list", l); withList(l, [&](const std::initializer_list<E> &q) { v = q; }); m = l; resync(); break; }
            case 29: { if (!n) break; int at = c.r.upto(n), j = c.r.upto(n); OP("set_own_element", at, j); if (alt) v.setElementAt(v[j], at); else c.eq(El<E>::id(v.set(at, v[j])), m[at], "Vector.set-result"); m[at] = m[j]; c.ev("aliased_sets"); break; }
            case 28: { if (!n) break; int j = c.r.upto(n), at = c.r.upto(n + 1); OP("add_own_element", j, at); if (alt) { v.add(v[j]); m.push_back(m[j]); } else { int q = m[j]; v.add(at, v[j]); m.insert(m.begin() + at, q); } need(n + 1); capEq("add"); c.ev("aliased_adds"); break; }
            default: {
                OP("first_last");
                int f = 0, b = 0;
                Str e1 = thrown([&]() { f = El<E>::id(v.firstElement()); }), e2 = thrown([&]() { b = El<E>::id(v.lastElement()); });
                c.check((e1 == "") == (n > 0) && (e2 == "") == (n > 0), "Vector.first/last-empty", "size " + show(n) + " threw '" + e1 + "' '" + e2 + "'");
                if (n) { c.eq(f, m.front(), "Vector.firstElement"); c.eq(b, m.back(), "Vector.lastElement"); } else c.ev("empty_ends");
            }
        }
    }
};
template<class E> static void history(Ctx &c) {
    long before = Tok::live();
    {
        int ids = c.r.chance(50) ? 4 : 30, ctor = c.r.upto(5), inc = 0, cap = 10;
        std::unique_ptr<Vec<E>> v;
        Vi m;
        if (ctor == 0) { int x = c.r.upto(ids), y = c.r.upto(ids); OP("Vector{}", x, y); v.reset(new Vec<E>{El<E>::make(x), El<E>::make(y)}); m = {x, y}; cap = v->capacity(); }
        else if (ctor == 1) { cap = c.r.upto(20); inc = c.r.upto(8) - 1; OP("Vector", cap, inc); v.reset(new Vec<E>(cap, inc)); }
        else if (ctor == 2) { cap = c.r.upto(40); OP("Vector", cap); v.reset(new Vec<E>(cap)); }
        else { OP("Vector"); v.reset(new Vec<E>()); }
        c.check(v->capacity() == cap, "Vector.initial-capacity", show(v->capacity()) + " instead of " + show(cap));
        if (c.r.chance(3)) { int k = -1 - c.r.upto(5); c.check(thrown([&]() { Vec<E> q(k); }) != "", "Vector.negative-capacity", "accepted"); }
        Hist<E> h{c, *v, m, inc, cap, ids};
        int steps = 4 + c.r.size(60);
        for (int k = 0; k < steps; ++k) { h.step(); checkVec(c, *v, h.m, k % 8 == 7 || k == steps - 1); }
    }
    tokBalance(c, before, "Vector");
}
WORKLOAD(integers, 2500, 60000) { history<Java::Lang::Integer>(c); }
WORKLOAD(strings, 2500, 60000) { history<Java::Lang::String>(c); }
WORKLOAD(tracked, 3000, 80000) { history<Tok>(c); }

template<class E> static void stackHistory(Ctx &c) {
    long before = Tok::live();
    {
        Stk<E> s;
        Hist<E> h{c, s, {}, 0, 10, c.r.chance(50) ? 4 : 30};
        int steps = 4 + c.r.size(60);
        for (int k = 0; k < steps; ++k) {
            int n = (int) h.m.size(), x = h.el(), op = c.r.upto(12);
            switch (op) {
                case 0: case 1: case 2: case 3: { OP("push", x); c.eq(El<E>::id(s.push(El<E>::make(x))), x, "Stack.push-result"); h.m.push_back(x); h.need(n + 1); h.capEq("push"); break; }
                case 4: case 5: case 6: { OP("pop"); int g = 0; Str ex = thrown([&]() { g = El<E>::id(s.pop()); }); c.check(ex == (n ? "" : "EmptyStackException"), "Stack.pop-empty", "size " + show(n) + " threw '" + ex + "'"); if (n) { c.eq(g, h.m.back(), "Stack.pop"); h.m.pop_back(); c.ev("pops"); } else c.ev("empty_pops"); break; }
                case 7: { OP("peek"); int g = 0; Str ex = thrown([&]() { g = El<E>::id(s.peek()); }); c.check(ex == (n ? "" : "EmptyStackException"), "Stack.peek-empty", "size " + show(n) + " threw '" + ex + "'"); if (n) c.eq(g, h.m.back(), "Stack.peek"); break; }
                case 8: { OP("search", x); int w = -1; for (int j = 0; j < n; ++j) if (h.m[j] == x) w = j; c.eq(s.search(El<E>::make(x)), w, "Stack.search"); break; }
                case 9: { OP("copy"); Stk<E> cp = s; if (n) { cp.pop(); cp.push(El<E>::make(77)); cp.push(El<E>::make(78)); c.eq(El<E>::id(cp.peek()), 78, "Stack.peek"); } if (c.r.chance(30)) { Stk<E> q; q.push(El<E>::make(5)); q = s; checkVec(c, q, h.m, true); } break; }
                case 10: { if (!n) break; int j = c.r.upto(n); OP("push_own_element", j); s.push(s[j]); h.m.push_back(h.m[j]); h.need(n + 1); h.capEq("push"); c.ev("aliased_adds"); break; }
                default: h.step();
            }
            c.eq((bool) s.empty(), h.m.empty(), "Stack.empty");
            checkVec(c, s, h.m, k % 8 == 7 || k == steps - 1);
        }
        while (!h.m.empty()) { c.eq(El<E>::id(s.pop()), h.m.back(), "Stack.pop"); h.m.pop_back(); }
        c.check(thrown([&]() { s.pop(); }) == "EmptyStackException", "Stack.pop-empty", "a drained stack pops");
    }
    tokBalance(c, before, "Stack");
}
WORKLOAD(stack_integers, 1500, 40000) { stackHistory<Java::Lang::Integer>(c); }
WORKLOAD(stack_strings, 1500, 40000) { stackHistory<Java::Lang::String>(c); }
WORKLOAD(stack_tracked, 2500, 60000) { stackHistory<Tok>(c); }
template<class E> struct Open : Java::Util::Vector<E> { using Java::Util::Vector<E>::removeRange; };   // removeRange is for subclasses
template<class E> static void ranges(Ctx &c) {
    long before = Tok::live();
    {
        Open<E> v; std::vector<int> m;
        int n = c.r.size(30);
        OP("Vector", n);
        for (int i = 0; i < n; ++i) { int x = c.r.upto(100); v.add(El<E>::make(x)); m.push_back(x); }
        for (int k = 0; k < 5; ++k) {
            int size = (int) m.size(), from = (int) c.r.range(-2, size + 2), to = (int) c.r.range(-2, size + 2);
            if (size && c.r.chance(60)) { from = c.r.upto(size); to = from + c.r.upto(size - from); }
            if (to == size) continue;
            OP("removeRange", from, to);
            bool ok = from >= 0 && from <= to && to < size;
            Str ex = thrown([&]() { v.removeRange(from, to); });
            c.eq(ex, Str(ok ? "" : "IllegalArgumentException"), "Vector.removeRange-bounds");
            if (ok) m.erase(m.begin() + from, m.begin() + std::max(to, from + 1));      // an empty range removes one, the existing tests say
            c.ev(ok ? "ranges_removed" : "bad_ranges");
            c.eq((int) v.size(), (int) m.size(), "Vector.removeRange-size");
            for (size_t i = 0; i < m.size(); ++i) c.eq(El<E>::id(v.get((int) i)), m[i], "Vector.removeRange");
        }
    }
    tokBalance(c, before, "Vector.removeRange");
}
WORKLOAD(ranges_, 700, 15000) { ranges<Java::Lang::Integer>(c); ranges<Java::Lang::String>(c); ranges<Tok>(c); }
MON_MAIN
