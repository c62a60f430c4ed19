// L03: LinkedList against a double-ended sequence over call histories.
#include "tok.hpp"
#include <deque>
using mon::Ctx;
using Java::Util::Node;
typedef std::deque<int> Di;
template<class E> using LL = Java::Util::LinkedList<E>;
static Str showD(const Di &d) { return show(std::vector<int>(d.begin(), d.end())); }

template<class E> static void checkList(Ctx &c, LL<E> &l, const Di &m) {
    c.eq((long) l.size(), (long) m.size(), "LinkedList.size");
    Di it, fe;
    for (Node<E> *n : l) it.push_back(El<E>::id(n->element));
    c.check(it == m, "LinkedList.iteration", "got " + showD(it) + " expected " + showD(m));
    l.forEach([&](Node<E> *n) { fe.push_back(El<E>::id(n->element)); return true; });
    c.check(fe == m, "LinkedList.forEach", "got " + showD(fe) + " expected " + showD(m));
    for (size_t i = 0; i < m.size(); ++i) c.eq(El<E>::id(l.get((int) i)), m[i], "LinkedList.get");
}
template<class E> static void history(Ctx &c) {
    long before = Tok::live();
    {
        int ids = c.r.chance(50) ? 4 : 30;
        auto el = [&]() { return c.r.upto(ids) - ids / 4; };
        const int def = El<Tok>::id(Tok());
        LL<E> l; Di m;
        if (c.r.chance(20)) { int x = el(), y = el(); OP("LinkedList{}", x, y); LL<E> q{El<E>::make(x), El<E>::make(y)}; l = q; m = {x, y}; }
        int steps = 4 + c.r.size(60), bias = c.r.upto(3);
        auto isDefault = [&](const E &e) { return e == E(); };
        (void) def;
        for (int k = 0; k < steps; ++k) {
            int n = (int) m.size(), x = el(), i = (int) c.r.range(-2, n + 2), op = c.r.upto(29);
            if (bias == 0 && c.r.chance(50)) op = 8 + c.r.upto(8);      // drain-heavy histories
            if (c.r.chance(5)) i = c.r.chance(50) ? INT32_MIN : INT32_MAX;
            bool in = i >= 0 && i < n;
            E v = El<E>::make(x);
            auto ends = [&](const char *what, bool front, bool take, bool throws, std::function<E()> f) {
                OP(what);
                E g = E();
                Str ex = thrown([&]() { g = f(); });
                if (n == 0) {
                    c.ev("empty_ends");
                    c.eq(ex, Str(throws ? "NoSuchElementException" : ""), Str("LinkedList.") + what + "-empty");
                    if (!throws) c.check(isDefault(g), Str("LinkedList.") + what + "-empty", "not the default value");
                    return;
                }
                c.eq(ex, Str(), Str("LinkedList.") + what + "-threw");
                c.eq(El<E>::id(g), front ? m.front() : m.back(), Str("LinkedList.") + what);
                if (take) { if (front) m.pop_front(); else m.pop_back(); if (m.empty()) c.ev("drained"); }
            };
            switch (op) {
                case 0: OP("add", x); c.check(l.add(v), "LinkedList.add", "false"); m.push_back(x); break;
                case 1: OP("addLast", x); l.addLast(v); m.push_back(x); break;
                case 2: OP("addFirst", x); l.addFirst(v); m.push_front(x); break;
                case 3: OP("offer", x); c.check(l.offer(v), "LinkedList.offer", "false"); m.push_back(x); break;
                case 4: OP("offerFirst", x); c.check(l.offerFirst(v), "LinkedList.offerFirst", "false"); m.push_front(x); break;
                case 5: OP("offerLast", x); c.check(l.offerLast(v), "LinkedList.offerLast", "false"); m.push_back(x); break;
                case 6: case 7: OP("push", x); l.push(v); m.push_front(x); break;
                case 8: ends("poll", true, true, false, [&]() { return l.poll(); }); break;
                case 9: ends("pollFirst", true, true, false, [&]() { return l.pollFirst(); }); break;
                case 10: ends("pollLast", false, true, false, [&]() { return l.pollLast(); }); break;
                case 11: ends("pop", true, true, true, [&]() { return l.pop(); }); break;
                case 12: ends("remove", true, true, true, [&]() { return l.remove(); }); break;
                case 13: ends("removeLast", false, true, true, [&]() { return l.removeLast(); }); break;
                case 14: ends("peek", true, false, false, [&]() { return l.peek(); }); ends("peekFirst", true, false, false, [&]() { return l.peekFirst(); }); break;
                case 15: ends("peekLast", false, false, false, [&]() { return l.peekLast(); }); break;
                case 16: ends("getFirst", true, false, true, [&]() { return l.getFirst(); }); ends("element", true, false, true, [&]() { return l.element(); }); break;
                case 17: ends("getLast", false, false, true, [&]() { return l.getLast(); }); break;
                case 18: { OP("get", i); int g = 0; Str ex = thrown([&]() { g = El<E>::id(l.get(i)); }); c.eq(ex, Str(in ? "" : "IndexOutOfBoundsException"), "LinkedList.get-bounds"); if (in) c.eq(g, m[i], "LinkedList.get"); else c.ev("rejected_indexes"); break; }
                case 19: { OP("set", i, x); int g = 0; Str ex = thrown([&]() { g = El<E>::id(l.set(i, v)); }); c.eq(ex, Str(in ? "" : "IndexOutOfBoundsException"), "LinkedList.set-bounds"); if (in) { c.eq(g, m[i], "LinkedList.set-result"); m[i] = x; } else c.ev("rejected_indexes"); break; }
                case 20: case 21: { OP("remove_at", i); bool g = false; Str ex = thrown([&]() { g = l.remove(i); }); c.eq(ex, Str(in ? "" : "IndexOutOfBoundsException"), "LinkedList.remove-bounds"); if (in) { c.check(g, "LinkedList.remove(index)", "false"); m.erase(m.begin() + i); } else c.ev("rejected_indexes"); break; }
                case 22: {                           // remove by node, also through an equal but foreign node
                    if (!in) break;
                    OP("remove_node", i);
                    auto it = l.begin(); std::advance(it, i);
                    Node<E> stranger(El<E>::make(m[i]));
                    c.check(!l.remove(stranger), "LinkedList.remove(foreign node)", "true");
                    checkList(c, l, m);
                    if (c.r.chance(50)) { Node<E> same(**it); c.check(l.remove(same), "LinkedList.remove(copy of node)", "false"); c.ev("removed_by_copied_nodes"); }
                    else c.check(l.remove(**it), "LinkedList.remove(node)", "false");
                    m.erase(m.begin() + i);
                    break;
                }
                case 23: {                           // removing nodes while walking, and stopping early
                    int stop = c.r.upto(n + 2), seen = 0, mod = 1 + c.r.upto(3);
                    OP("forEach_remove", stop, mod);
                    Di w; for (int j = 0; j < n; ++j) if (!(j < std::max(stop, 1) && j % mod == 0)) w.push_back(m[j]);
                    l.forEach([&](Node<E> *nd) { c.eq(El<E>::id(nd->element), m[seen], "LinkedList.forEach"); if (seen % mod == 0) c.check(l.remove(*nd), "LinkedList.remove(node)", "false"); return ++seen < stop; });
                    c.eq(seen, std::min(n, std::max(stop, 1)), "LinkedList.forEach-stop");
                    m = w;
                    break;
                }
                case 24: { OP("write_nodes", x); int j = 0; for (Node<E> *nd : l) if (j++ % 2) nd->element = v; for (int q = 1; q < n; q += 2) m[q] = x; break; }
                case 25: { if (!c.r.chance(30)) break; OP("clear"); l.clear(); m.clear(); break; }
                case 26: {                           // copies are independent
                    OP("copy", x);
                    LL<E> cp = l; Di cm = m;
                    checkList(c, cp, cm);
                    cp.addFirst(v); cm.push_front(x); cp.removeLast(); cm.pop_back();
                    if (!cm.empty()) { cp.set((int) cm.size() - 1, v); cm.back() = x; }
                    checkList(c, l, m);
                    checkList(c, cp, cm);
                    if (c.r.chance(40)) { OP("assign"); l = cp; m = cm; }
                    else if (c.r.chance(40)) {      // to and from lists of any other length, also empty
                        int nn = c.r.upto(c.r.chance(40) ? 1 : 12);
                        OP("assign_fresh", nn);
                        LL<E> o; Di om;
                        for (int j = 0; j < nn; ++j) { int y = el(); o.add(El<E>::make(y)); om.push_back(y); }
                        if (c.r.chance(70)) { l = o; m = om; o.clear(); o.add(v); c.ev(nn ? "assigned_lists" : "assigned_empty_lists"); }
                        else { o = l; checkList(c, o, m); l.clear(); checkList(c, o, m); m.clear(); }
                    }
                    break;
                }
                case 27: if (n && c.r.chance(60)) {  // a node stays the same node when its element is set; the new element may be one of the list's own
                    OP("set_own_element", i);
                    int at = c.r.upto(n), from = c.r.upto(n);
                    if (c.r.chance(30)) from = at;
                    auto it = l.begin(); std::advance(it, at);
                    auto src = l.begin(); std::advance(src, from);
                    Node<E> copy(**it);
                    c.eq(El<E>::id(l.set(at, (*src)->element)), m[at], "LinkedList.set-result");
                    m[at] = m[from];
                    checkList(c, l, m);
                    c.ev("sets_from_own_elements");
                    if (c.r.chance(50)) { c.check(l.remove(copy), "LinkedList.remove(node after set)", "false"); m.erase(m.begin() + at); }
                    break;
                }
                // fall through
                default: { OP("self_assign"); LL<E> &r = l; l = r; if (n && c.r.chance(50)) { int j = c.r.upto(n); auto it = l.begin(); std::advance(it, j); OP("add_own_element", j); if (c.r.chance(50)) { l.push((*it)->element); m.push_front(m[j]); } else { l.add((*it)->element); m.push_back(m[j]); } } break; }
            }
            checkList(c, l, m);
        }
    }
    tokBalance(c, before, "LinkedList");
}
WORKLOAD(integers, 2500, 60000) { history<Java::Lang::Integer>(c); }
WORKLOAD(strings, 2500, 60000) { history<Java::Lang::String>(c); }
WORKLOAD(tracked, 3500, 90000) { history<Tok>(c); }
WORKLOAD(primitives, 800, 20000) {                 // defaults of primitive elements are zero, not garbage
    LL<int> l; LL<double> d;
    int n = c.r.upto(5);
    OP("primitives", n);
    for (int i = 0; i < n; ++i) { l.add(i + 5); d.push(i + 0.5); }
    for (int i = 0; i < n; ++i) { c.eq(l.poll(), i + 5, "LinkedList.poll"); c.eq(d.pollLast(), i + 0.5, "LinkedList.pollLast"); }
    c.check(l.poll() == 0 && l.peek() == 0 && l.peekLast() == 0 && d.pollLast() == 0 && d.peekFirst() == 0, "LinkedList.poll-empty", "empty list of primitives does not give 0");
}
MON_MAIN
