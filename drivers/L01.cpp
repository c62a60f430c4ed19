// L01: ArrayList against a plain sequence over call histories.
#include "tok.hpp"
using mon::Ctx;
typedef std::vector<int> Vi;

template<class E> static void checkList(Ctx &c, Java::Util::ArrayList<E> &l, const Vi &m, bool deep) {
    c.eq((long) l.size(), (long) m.size(), "ArrayList.size");
    c.eq((bool) l.isEmpty(), m.empty(), "ArrayList.isEmpty");
    for (size_t i = 0; i < m.size(); ++i) c.eq(El<E>::id(l.get((int) i)), m[i], "ArrayList.get");
    if (!deep) return;
    Vi it;
    if (!m.empty()) for (const E &e : l) it.push_back(El<E>::id(e));
    c.check(it == m, "ArrayList.iteration", "got " + show(it) + " expected " + show(m));
    Array<E> a = l.toArray();
    Vi av;
    for (int i = 0; i < a.length; ++i) av.push_back(El<E>::id(a.get(i)));
    c.check(av == m, "ArrayList.toArray", "got " + show(av) + " expected " + show(m));
    Str t = "[";
    for (size_t i = 0; i < m.size(); ++i) t += (i ? ", " : "") + El<E>::text(m[i]);
    c.eq(N(l.toString()), t + "]", "ArrayList.toString");
}
template<class E> static void history(Ctx &c) {
    typedef Java::Util::ArrayList<E> L;
    long before = Tok::live();
    {
        const int ids = c.r.chance(50) ? 4 : 30;
        auto el = [&]() { return c.r.upto(ids) - ids / 4; };
        L *l; Vi m;
        int ctor = c.r.upto(4);
        if (ctor == 0) { int n = c.r.size(40); Array<E> a; for (int i = 0; i < n; ++i) { int v = el(); a.push(El<E>::make(v)); m.push_back(v); } OP("ArrayList(Array)", m); l = new L(a); }
        else if (ctor == 1) { int x = el(), y = el(), z = el(); OP("ArrayList{}", x, y, z); l = new L{El<E>::make(x), El<E>::make(y), El<E>::make(z)}; m = {x, y, z}; }
        else { OP("ArrayList"); l = new L(); }
        std::unique_ptr<L> own(l);
        int steps = 4 + c.r.size(60);
        for (int k = 0; k < steps; ++k) {
            int n = (int) m.size(), i = (int) c.r.range(-2, n + 2), v = el(), op = c.r.upto(26);
            if (c.r.chance(5)) i = c.r.chance(50) ? INT32_MIN : INT32_MAX;
            bool in = i >= 0 && i < n;
            auto threw = [&](const Str &ex, bool ok, const char *what) {
                c.check(ex == (ok ? "" : "IndexOutOfBoundsException"), Str("ArrayList.") + what + "-bounds", "index " + show(i) + " of " + show(n) + ": " + (ex == "" ? "returned" : "threw " + ex));
                if (!ok) c.ev("rejected_indexes");
            };
            switch (op) {
                case 0: case 1: case 2: case 3: { OP("add", v); c.check(l->add(El<E>::make(v)), "ArrayList.add", "false"); m.push_back(v); break; }
                case 4: case 5: { OP("add_at", i, v); bool ok = i >= 0 && i <= n; Str ex = thrown([&]() { l->add(i, El<E>::make(v)); }); threw(ex, ok, "add(index)"); if (ok) m.insert(m.begin() + i, v); if (ok && i == n) c.ev("insert_at_end"); break; }
                case 6: { OP("get", i); int g = 0; Str ex = thrown([&]() { g = El<E>::id(l->get(i)); }); threw(ex, in, "get"); if (in) c.eq(g, m[i], "ArrayList.get"); break; }
                case 7: case 8: { OP("set", i, v); int g = 0; Str ex = thrown([&]() { g = El<E>::id(l->set(i, El<E>::make(v))); }); threw(ex, in, "set"); if (in) { c.eq(g, m[i], "ArrayList.set-result"); m[i] = v; } break; }
                case 9: case 10: { OP("remove_at", i); int g = 0; Str ex = thrown([&]() { g = El<E>::id(l->remove(i)); }); threw(ex, in, "remove"); if (in) { c.eq(g, m[i], "ArrayList.remove-result"); m.erase(m.begin() + i); } break; }
                case 11: case 12: { OP("remove", v); auto p = std::find(m.begin(), m.end(), v); bool r = l->remove(El<E>::make(v)); c.eq(r, p != m.end(), "ArrayList.remove(element)"); if (p != m.end()) m.erase(p); break; }
                case 13: { OP("indexOf", v); auto p = std::find(m.begin(), m.end(), v); c.eq(l->indexOf(El<E>::make(v)), p == m.end() ? -1 : (int) (p - m.begin()), "ArrayList.indexOf"); break; }
                case 14: { OP("lastIndexOf", v); int w = -1; for (int j = 0; j < n; ++j) if (m[j] == v) w = j; c.eq(l->lastIndexOf(El<E>::make(v)), w, "ArrayList.lastIndexOf"); break; }
                case 15: { OP("contains", v); c.eq((bool) l->contains(El<E>::make(v)), std::find(m.begin(), m.end(), v) != m.end(), "ArrayList.contains"); break; }
                case 16: { if (!c.r.chance(30)) break; OP("clear"); l->clear(); m.clear(); break; }
                case 17: { OP("ensureCapacity", n); l->ensureCapacity(c.r.upto(2 * n + 3)); if (c.r.chance(50)) l->trimToSize(); break; }
                case 18: {                                 // clones are independent
                    OP("clone", v);
                    L cp = l->clone();
                    Vi cm = m;
                    cp.add(El<E>::make(v)); cm.push_back(v);
                    if (n) { cp.set(0, El<E>::make(v)); cm[0] = v; cp.remove(n / 2); cm.erase(cm.begin() + n / 2); }
                    checkList(c, cp, cm, true);
                    if (c.r.chance(40)) { *l = cp; m = cm; OP("assign"); }
                    break;
                }
                case 19: { OP("self_assign"); L &r = *l; *l = r; break; }
                case 20: {                                 // forEach stops when told to
                    int stop = c.r.upto(n + 2);
                    OP("forEach", stop);
                    Vi seen;
                    l->forEach([&](E e) { seen.push_back(El<E>::id(e)); return (int) seen.size() < stop; });
                    Vi want(m.begin(), m.begin() + std::min(n, std::max(stop, 1)));
                    c.check(seen == want, "ArrayList.forEach", "saw " + show(seen) + " expected " + show(want));
                    break;
                }
                case 21: { if (!in) break; OP("index_write", i, v); c.eq(El<E>::id((*l)[i]), m[i], "ArrayList[]"); (*l)[i] = El<E>::make(v); m[i] = v; break; }
                case 22: { if (!n) break; int j = c.r.upto(n); OP("add_own_element", j); l->add((*l)[j]); m.push_back(m[j]); break; }      // argument aliases the storage
                case 23: { if (!n) break; int j = c.r.upto(n), at = c.r.upto(n + 1); OP("insert_own_element", at, j); l->add(at, (*l)[j]); m.insert(m.begin() + at, Vi(m)[j]); c.ev("own_elements_inserted");
                           int p = c.r.upto(n), q = c.r.upto(n); OP("set_own_element", p, q); c.eq(El<E>::id(l->set(p, (*l)[q])), m[p], "ArrayList.set-result"); m[p] = m[q]; break; }
                case 24: {                                 // assignment to and from lists of any other length, also empty
                    int nn = c.r.upto(c.r.chance(40) ? 1 : 30);
                    OP("assign_fresh", nn);
                    L o; Vi om;
                    for (int j = 0; j < nn; ++j) { int y = el(); o.add(El<E>::make(y)); om.push_back(y); }
                    if (c.r.chance(60)) { *l = o; m = om; o.clear(); o.add(El<E>::make(v)); c.ev(nn ? "assigned_lists" : "assigned_empty_lists"); }
                    else { o = *l; checkList(c, o, m, true); l->clear(); checkList(c, o, m, true); m.clear(); }
                    break;
                }
                default: { if (!n) break; int j = c.r.upto(n); OP("remove_own_element", j); auto p = std::find(m.begin(), m.end(), m[j]); c.check(l->remove((*l)[j]), "ArrayList.remove(own)", "false"); m.erase(p); break; }
            }
            checkList(c, *l, m, k % 8 == 7 || k == steps - 1);
        }
        if (m.size() > 64) c.ev("long_lists");
        std::ostringstream os; os << *l;
        Str want; for (int v : m) want += El<E>::raw(v) + " ";
        c.eq(os.str(), want + "\n", "ArrayList.ostream");
    }
    tokBalance(c, before, "ArrayList");
}
WORKLOAD(integers, 2500, 60000) { history<Java::Lang::Integer>(c); }
WORKLOAD(strings, 2500, 60000) { history<Java::Lang::String>(c); }
WORKLOAD(tracked, 3000, 80000) { history<Tok>(c); }
WORKLOAD(growth, 60, 1500) {                      // long runs across many reallocations
    Java::Util::ArrayList<Tok> l;
    long before = Tok::live();
    Vi m;
    int n = 200 + c.r.upto(1200);
    OP("growth", n);
    for (int i = 0; i < n; ++i) {
        if (c.r.chance(70) || m.empty()) { int at = c.r.chance(70) ? (int) m.size() : c.r.upto((int) m.size() + 1); l.add(at, Tok(i)); m.insert(m.begin() + at, i); }
        else { int at = c.r.upto((int) m.size()); c.eq(El<Tok>::id(l.remove(at)), m[at], "ArrayList.remove-result"); m.erase(m.begin() + at); }
    }
    checkList(c, l, m, true);
    c.check(Tok::live() == before + (long) m.size(), "ArrayList.element-conservation", show(Tok::live()) + " live for " + show(m.size()) + " elements");
    c.ev("long_lists");
}
WORKLOAD(nested, 400, 8000) {                     // lists of lists
    typedef Java::Util::ArrayList<Java::Lang::Integer> Row;
    Java::Util::ArrayList<Row> l;
    std::vector<Vi> m;
    int n = c.r.upto(6);
    OP("nested", n);
    for (int i = 0; i < n; ++i) { Row r; Vi v; int k = c.r.upto(5); for (int j = 0; j < k; ++j) { int x = c.r.i32(); r.add(Java::Lang::Integer(x)); v.push_back(x); } l.add(r); m.push_back(v); r.add(Java::Lang::Integer(99)); }
    Str t = "[";
    for (int i = 0; i < n; ++i) { t += i ? ", [" : "["; for (size_t j = 0; j < m[i].size(); ++j) t += (j ? ", " : "") + std::to_string(m[i][j]); t += "]"; }
    c.eq(N(l.toString()), t + "]", "ArrayList.toString(nested)");
    for (int i = 0; i < n; ++i) { Row r = l.get(i); checkList(c, r, m[i], true); }
}
template<class E> struct Open : Java::Util::ArrayList<E> {        // removeRange is for subclasses
    Open() {}
    explicit Open(int n) : Java::Util::ArrayList<E>(n) {}
    using Java::Util::ArrayList<E>::removeRange;
};
template<class E> static void sized(Ctx &c) {     // lists born with a size, ranges removed by subclasses
    long before = Tok::live();
    {
        int n = c.r.size(40);
        OP("ArrayList(n)", n);
        Open<E> l(n);
        Vi m(n, 0);
        checkList<E>(c, l, m, true);
        for (int k = c.r.upto(20); k-- > 0;) { int v = c.r.upto(100); l.add(El<E>::make(v)); m.push_back(v); }
        for (int k = 0; k < 4; ++k) {
            int a = c.r.upto((int) m.size() + 1), b = a + c.r.upto((int) m.size() - a + 1);
            OP("removeRange", a, b);
            l.removeRange(a, b);
            m.erase(m.begin() + a, m.begin() + b);
            c.ev("ranges_removed");
            checkList<E>(c, l, m, true);
            int v = c.r.upto(100); l.add(El<E>::make(v)); m.push_back(v);
        }
    }
    tokBalance(c, before, "ArrayList(n)");
}
WORKLOAD(born_sized, 500, 10000) { sized<Java::Lang::Integer>(c); sized<Tok>(c); }
WORKLOAD(text_form, 1500, 30000) {                // strings are quoted unless they are lists or objects themselves
    Java::Util::ArrayList<Java::Lang::String> l;
    Str want = "[";
    int n = c.r.upto(6);
    for (int i = 0; i < n; ++i) {
        Str s = c.r.bytes(c.r.upto(5), "[]{}\"ab, ");
        OP("add", s);
        l.add(J(s));
        bool bare = !s.empty() && (s[0] == '[' || s[0] == '{');
        want += (i ? ", " : "") + (bare ? s : "\"" + s + "\"");
        c.ev(bare ? "bare_texts" : "quoted_texts");
    }
    c.eq(N(l.toString()), want + "]", "ArrayList.toString(strings)");
}
MON_MAIN
