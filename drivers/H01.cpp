// H01: HashMap and Set against std::map/std::set over call histories.
#include "tok.hpp"
using mon::Ctx;
struct Clash : Tok {                                // keys whose hash codes collide heavily
    Clash(long x = 0) : Tok(x) {}
    int hashCode() const { return (int) (v & 1); }
};
namespace std { template<> struct hash<Clash> { size_t operator()(const Clash &t) const { t.use("hashed a dead key"); return (size_t) t.hashCode(); } }; }
template<> struct El<Clash> {
    static Clash make(int i) { return Clash(i); }
    static int id(const Clash &e) { e.use("read a dead element"); return (int) e.v; }
    static Str text(int i) { return std::to_string(i); }
    static Str raw(int i) { return std::to_string(i); }
};
template<> struct El<int> {
    static int make(int i) { return i; }
    static int id(int e) { return e; }
    static Str text(int i) { return std::to_string(i); }
};
template<> struct El<Java::Lang::Long> {
    static Java::Lang::Long make(int i) { return Java::Lang::Long((long) i * 4294967296L + i); }
    static int id(const Java::Lang::Long &e) { return (int) e.longValue(); }
    static Str text(int i) { return std::to_string((long) i * 4294967296L + i); }
};
typedef std::map<int, int> M;
static const int ABSENT = INT32_MIN;                // model value for "the default V()"
static Str showM(const M &m) { Str s = "{"; for (auto &e : m) s += show(e.first) + "=" + show(e.second) + " "; return s + "}"; }

template<class K, class V> struct MapCheck {
    typedef Java::Util::HashMap<K, V> H;
    static int vid(const V &v) { return v == V() ? ABSENT : El<V>::id(v); }
    static V make(int i) { return i == ABSENT ? V() : El<V>::make(i); }     // ABSENT stands for the default value, stored or not
    template<class V2> static auto plain(V2 v, int) -> decltype(v.toString(), Str()) { return N(v.toString()); }
    template<class V2> static Str plain(V2, long) { return ""; }
    static Str text1(int i) { return i != ABSENT ? El<V>::text(i) : std::is_same<V, Java::Lang::String>::value ? Str("\"\"") : plain(V(), 0); }
    static void all(Ctx &c, H &h, const M &m, int ids, bool deep) {
        const H &ch = h;
        c.eq((long) h.size(), (long) m.size(), "HashMap.size");
        c.eq((bool) h.isEmpty(), m.empty(), "HashMap.isEmpty");
        for (int k = -1; k <= ids; ++k) {
            auto it = m.find(k);
            c.eq(vid(ch.get(El<K>::make(k))), it == m.end() ? ABSENT : it->second, "HashMap.get");
            c.eq((bool) ch.containsKey(El<K>::make(k)), it != m.end(), "HashMap.containsKey");
        }
        if (!deep) return;
        M it, ci, fe, es;
        size_t n1 = 0, n2 = 0, n3 = 0, n4 = 0;
        std::vector<std::pair<int, int>> order;
        for (auto &e : h) { it[El<K>::id(e.first)] = vid(e.second); ++n1; order.push_back({El<K>::id(e.first), vid(e.second)}); }
        for (auto &e : ch) { ci[El<K>::id(e.first)] = vid(e.second); ++n2; }
        ch.forEach([&](K k, V v) { fe[El<K>::id(k)] = vid(v); ++n3; return true; });
        for (auto e : h.entrySet()) { es[El<K>::id(e.getKey())] = vid(e.getValue()); ++n4; }
        c.check(it == m && n1 == m.size(), "HashMap.iteration", "got " + showM(it) + " expected " + showM(m));
        c.check(ci == m && n2 == m.size(), "HashMap.const-iteration", "got " + showM(ci) + " expected " + showM(m));
        c.check(fe == m && n3 == m.size(), "HashMap.forEach", "got " + showM(fe) + " expected " + showM(m));
        c.check(es == m && n4 == m.size(), "HashMap.entrySet", "got " + showM(es) + " expected " + showM(m));
        text(c, h, order);
    }
    template<class V2, class H2> static auto textOf(H2 &h, int) -> decltype(std::declval<V2>().toString(), Str()) { return N(h.toString()); }
    template<class V2, class H2> static Str textOf(H2 &, long) { return "\x01"; }
    static void text(Ctx &c, H &h, const std::vector<std::pair<int, int>> &order) {
        Str got = textOf<V>(h, 0), want = "{";
        if (got == "\x01") return;
        for (size_t i = 0; i < order.size(); ++i) want += (i ? ", " : "") + El<K>::text(order[i].first) + ": " + text1(order[i].second);
        c.eq(got, want + "}", "HashMap.toString");
    }
};
template<class K, class V> static void history(Ctx &c) {
    typedef MapCheck<K, V> C;
    typedef Java::Util::HashMap<K, V> H;
    long before = Tok::live();
    {
        const int ids = c.r.chance(60) ? 5 : 24;
        H h; M m;
        auto K_ = [&](int k) { return El<K>::make(k); };
        auto V_ = [&](int v) { return C::make(v); };
        auto at = [&](int k) { auto it = m.find(k); return it == m.end() ? ABSENT : it->second; };
        if (c.r.chance(25)) {
            int k = c.r.upto(ids), v = 1 + c.r.upto(9), k2 = c.r.upto(ids), v2 = 1 + c.r.upto(9);
            OP("HashMap{}", k, v, k2, v2);
            H q{std::tuple<K, V>(K_(k), V_(v)), std::tuple<K, V>(K_(k2), V_(v2))};
            h = q; m[k] = v; m[k2] = v2;
        }
        int steps = 4 + c.r.size(60);
        for (int s = 0; s < steps; ++s) {
            int k = c.r.upto(ids), v = 1 + c.r.upto(9), w = 1 + c.r.upto(9), op = c.r.upto(28);
            if (c.r.chance(25)) v = ABSENT;                    // default values are values like any other
            if (c.r.chance(10)) w = ABSENT;
            if (v == ABSENT || w == ABSENT) c.ev("default_values");
            bool has = m.count(k);
            if (has && c.r.chance(60)) w = m[k];              // conditional operations should often match
            switch (op) {
                case 0: case 1: case 2: case 3: OP("put", k, v); h.put(K_(k), V_(v)); m[k] = v; if (has) c.ev("overwrites"); break;
                case 4: case 5: { OP("putIfAbsent", k, v); c.eq(C::vid(h.putIfAbsent(K_(k), V_(v))), at(k), "HashMap.putIfAbsent-result"); m.insert({k, v}); break; }
                case 6: case 7: case 8: { OP("remove", k); c.eq(C::vid(h.remove(K_(k))), at(k), "HashMap.remove-result"); m.erase(k); if (has) c.ev("removals"); break; }
                case 9: case 10: { OP("remove_value", k, w); bool hit = has && m[k] == w; c.eq((bool) h.remove(K_(k), V_(w)), hit, "HashMap.remove(key,value)"); if (hit) { m.erase(k); c.ev("conditional_hits"); } else c.ev("conditional_misses"); break; }
                case 11: { OP("replace", k, v); c.eq(C::vid(h.replace(K_(k), V_(v))), at(k), "HashMap.replace-result"); if (has) m[k] = v; break; }
                case 12: case 13: { OP("replace_value", k, w, v); bool hit = has && m[k] == w; c.eq((bool) h.replace(K_(k), V_(w), V_(v)), hit, "HashMap.replace(key,old,new)"); if (hit) { m[k] = v; c.ev("conditional_hits"); } else c.ev("conditional_misses"); break; }
                case 14: { OP("getOrDefault", k, v); c.eq(C::vid(h.getOrDefault(K_(k), V_(v))), has ? m[k] : v, "HashMap.getOrDefault"); break; }
                case 15: { OP("containsValue", v); bool e = false; for (auto &x : m) e |= x.second == v; c.eq((bool) h.containsValue(V_(v)), e, "HashMap.containsValue"); break; }
                case 16: { if (!c.r.chance(30)) break; OP("clear"); if (c.r.chance(50)) h.clear(); else h.reinitialize(); m.clear(); break; }
                case 17: {                                     // putAll overwrites
                    H q; M qm;
                    for (int i = c.r.upto(5); i > 0; --i) { int kk = c.r.upto(ids), vv = c.r.chance(20) ? ABSENT : 1 + c.r.upto(9); q.put(K_(kk), V_(vv)); qm[kk] = vv; }
                    OP("putAll", qm.size());
                    h.putAll(q);
                    for (auto &x : qm) m[x.first] = x.second;
                    C::all(c, q, qm, ids, false);
                    break;
                }
                case 18: { OP("putAll_self"); h.putAll(h); break; }
                case 19: {                                     // copies are independent
                    OP("copy", k, v);
                    H cp = c.r.chance(50) ? h.clone() : H(h);
                    M cm = m;
                    c.check(cp.equals(h) && h.equals(cp), "HashMap.equals-copy", "a copy differs from its original");
                    cp.put(K_(k), V_(v)); cm[k] = v;
                    c.eq((bool) cp.equals(h), cm == m, "HashMap.equals");
                    if (c.r.chance(50)) { int k2 = c.r.upto(ids); cp.remove(K_(k2)); cm.erase(k2); }
                    c.eq((bool) cp.equals(h), cm == m, "HashMap.equals");
                    c.eq((bool) h.equals(cp), cm == m, "HashMap.equals");
                    C::all(c, cp, cm, ids, true);
                    if (c.r.chance(40)) { OP("assign"); h = cp; m = cm; }
                    break;
                }
                case 20: { OP("self_assign"); H &r = h; h = r; break; }
                case 21: {                                     // writing through iteration
                    OP("write_values", v);
                    for (auto &e : h) if (C::vid(e.second) != v) { e.second = V_(v); m[El<K>::id(e.first)] = v; break; }
                    break;
                }
                case 23: {                                     // arguments that live in the map itself
                    if (m.empty()) break;
                    int a = c.r.upto((int) m.size()), b = c.r.upto((int) m.size()), how = c.r.upto(8);
                    auto x = h.begin(), y = h.begin();
                    std::advance(x, a); std::advance(y, b);
                    int ka = El<K>::id(x->first), kb = El<K>::id(y->first);
                    OP("own_arguments", how, ka, kb);
                    int old = m[ka], other = m[kb];
                    switch (how) {
                        case 0: h.put(x->first, y->second); m[ka] = other; break;
                        case 1: c.eq(C::vid(h.replace(x->first, y->second)), old, "HashMap.replace-result"); m[ka] = other; break;
                        case 2: c.check(h.replace(x->first, x->second, y->second), "HashMap.replace(key,old,new)", "false"); m[ka] = other; break;
                        case 3: c.eq(C::vid(h.putIfAbsent(x->first, y->second)), old, "HashMap.putIfAbsent-result"); break;
                        case 4: c.eq(C::vid(h.remove(x->first)), old, "HashMap.remove-result"); m.erase(ka); break;
                        case 5: { bool hit = old == other; c.eq((bool) h.remove(x->first, y->second), hit, "HashMap.remove(key,value)"); if (hit) m.erase(ka); break; }
                        case 6: h.put(K_(k), y->second); m[k] = other; break;
                        default: c.eq(C::vid(h.getOrDefault(K_(k), y->second)), has ? m[k] : other, "HashMap.getOrDefault"); c.check(h.containsValue(y->second), "HashMap.containsValue", "own value not contained");
                    }
                    c.ev("own_arguments");
                    break;
                }
                case 24: {                                     // assignment to and from maps of any other size, also empty
                    H q; M qm;
                    for (int i = c.r.chance(40) ? 0 : c.r.upto(12); i > 0; --i) { int kk = c.r.upto(ids), vv = 1 + c.r.upto(9); q.put(K_(kk), V_(vv)); qm[kk] = vv; }
                    OP("assign_fresh", qm.size());
                    if (c.r.chance(60)) { h = q; m = qm; q.clear(); q.put(K_(k), V_(v)); c.ev(m.empty() ? "assigned_empty_maps" : "assigned_maps"); }
                    else { q = h; C::all(c, q, m, ids, true); h.clear(); C::all(c, q, m, ids, true); m.clear(); }
                    break;
                }
                case 25: {                                     // maps that differ in one value
                    H cp = h; M cm = m;
                    if (m.empty()) break;
                    auto it = m.begin(); std::advance(it, c.r.upto((int) m.size()));
                    OP("one_value", it->first, v);
                    cp.put(K_(it->first), V_(v)); cm[it->first] = v;
                    c.eq((bool) cp.equals(h), cm == m, "HashMap.equals");
                    c.eq((bool) h.equals(cp), cm == m, "HashMap.equals");
                    break;
                }
                case 22: {                                     // forEach stops when told to
                    int stop = c.r.upto((int) m.size() + 2), seen = 0;
                    OP("forEach", stop);
                    h.forEach([&](K kk, V vv) { c.eq(C::vid(vv), at(El<K>::id(kk)), "HashMap.forEach"); return ++seen < stop; });
                    c.eq(seen, std::min((int) m.size(), std::max(stop, 1)), "HashMap.forEach-stop");
                    break;
                }
                default: {                                     // equal contents with different keys or default values are different maps
                    OP("equals", k);
                    H a, b;
                    a.put(K_(k), V()); b.put(K_(k + 1), V());
                    c.check(!a.equals(b) && !b.equals(a), "HashMap.equals-keys", "maps with different keys are equal");
                    c.check(a.containsKey(K_(k)) && !a.containsKey(K_(k + 1)) && a.size() == 1, "HashMap.containsKey", "default value hides its key");
                    H d; c.check(!d.equals(a) && !a.equals(d), "HashMap.equals", "maps of different size are equal");
                }
            }
            C::all(c, h, m, ids, s % 6 == 5 || s == steps - 1);
        }
    }
    tokBalance(c, before, "HashMap");
}
using Java::Lang::Integer; using Java::Lang::String; using Java::Lang::Long;
WORKLOAD(string_string, 1500, 40000) { history<String, String>(c); }
WORKLOAD(integer_string, 1000, 30000) { history<Integer, String>(c); }
WORKLOAD(string_integer, 1000, 30000) { history<String, Integer>(c); }
WORKLOAD(long_tok, 1000, 30000) { history<Long, Tok>(c); }
WORKLOAD(tok_tok, 1500, 40000) { history<Tok, Tok>(c); }
WORKLOAD(clash_tok, 2000, 50000) { history<Clash, Tok>(c); }
WORKLOAD(string_int, 1000, 30000) { history<String, int>(c); }

WORKLOAD(byte_keys, 800, 20000) {                   // arbitrary byte strings as keys, incl. embedded NUL
    Java::Util::HashMap<String, Integer> h;
    std::map<Str, int> m;
    static const Str alpha("a\0\x80\xff", 4);
    int steps = 5 + c.r.upto(40);
    for (int s = 0; s < steps; ++s) {
        Str k = c.r.bytes(c.r.upto(4), alpha);
        int v = 1 + c.r.upto(100);
        if (c.r.chance(70)) { OP("put", k, v); h.put(J(k), Integer(v)); m[k] = v; }
        else { OP("remove", k); auto it = m.find(k); c.eq(h.remove(J(k)).intValue(), it == m.end() ? 0 : it->second, "HashMap.remove-result"); m.erase(k); }
        c.eq((long) h.size(), (long) m.size(), "HashMap.size");
        for (auto &e : m) c.eq(h.get(J(e.first)).intValue(), e.second, "HashMap.get(bytes)");
    }
    std::map<Str, int> es;
    for (auto e : h.entrySet()) es[N(e.getKey())] = e.getValue().intValue();
    c.check(es == m, "HashMap.entrySet(bytes)", show(es.size()) + " entries instead of " + show(m.size()));
}
WORKLOAD(many_keys, 40, 1000) {                     // across many rehashes
    Java::Util::HashMap<Integer, Integer> h;
    int n = 200 + c.r.upto(2000);
    OP("many_keys", n);
    for (int i = 0; i < n; ++i) h.put(Integer(i * 7), Integer(i));
    for (int i = 0; i < n; i += 3) h.remove(Integer(i * 7));
    for (int i = 0; i < n; i += 2) h.put(Integer(i * 7), Integer(-i - 1));
    long live = 0;
    for (int i = 0; i < n; ++i) {
        bool in = i % 2 == 0 || i % 3 != 0;
        live += in;
        c.eq((bool) h.containsKey(Integer(i * 7)), in, "HashMap.containsKey(many)");
        if (in) c.eq(h.get(Integer(i * 7)).intValue(), i % 2 == 0 ? -i - 1 : i, "HashMap.get(many)");
    }
    c.eq((long) h.size(), live, "HashMap.size(many)");
    Str text = "{", sep;
    for (auto &e : h) { text += sep + std::to_string(e.first.intValue()) + ": " + std::to_string(e.second.intValue()); sep = ", "; }
    c.eq(N(h.toString()), text + "}", "HashMap.toString(many)");
    Java::Util::HashMap<Integer, Integer> cp(h);
    int last = (n - 1) * 7;
    c.check(cp.equals(h) && h.equals(cp), "HashMap.equals(many)", "a copy differs");
    cp.put(Integer(last), Integer(INT32_MAX));
    c.check(!cp.equals(h) && !h.equals(cp), "HashMap.equals(many)", "equal though one value differs");
    c.ev("big_maps");
}
WORKLOAD(nested_text, 400, 8000) {                  // serialised values are embedded without quotes
    typedef Java::Util::HashMap<String, String> Row;
    Java::Util::HashMap<String, Row> h;
    Row r;
    Str vals[] = {"", "x", "[1]", "{\"a\": 1}", " [", "}"};
    int i = c.r.upto(6);
    OP("nested", i);
    r.put("k", J(vals[i]));
    Str q = i == 2 || i == 3 ? vals[i] : "\"" + vals[i] + "\"";
    c.eq(N(r.toString()), "{\"k\": " + q + "}", "HashMap.toString");
    h.put("row", r);
    c.eq(N(h.toString()), "{\"row\": {\"k\": " + q + "}}", "HashMap.toString(nested)");
    Java::Util::HashMap<String, Row> e;
    c.eq(N(e.toString()), Str("{}"), "HashMap.toString(empty)");
}
template<class E> static void setHistory(Ctx &c) {
    long before = Tok::live();
    {
        Java::Util::Set<E> s;
        std::set<int> m;
        int ids = c.r.chance(50) ? 4 : 30, steps = 2 + c.r.size(50);
        for (int k = 0; k < steps; ++k) {
            int x = c.r.upto(ids);
            if (c.r.chance(4)) { OP("Set.clear"); s.clear(); m.clear(); }
            else { OP("Set.add", x); c.eq((bool) s.add(El<E>::make(x)), m.insert(x).second, "Set.add-result"); }
            if (c.r.chance(10)) { Java::Util::Set<E> cp = s; cp.add(El<E>::make(ids)); c.eq((long) cp.size(), (long) m.size() + 1, "Set.copy"); }
            if (c.r.chance(6)) {                     // assigned from sets of any other size, also empty
                Java::Util::Set<E> o;
                std::set<int> om;
                for (int i = c.r.chance(40) ? 0 : c.r.upto(8); i > 0; --i) { int y = c.r.upto(ids); o.add(El<E>::make(y)); om.insert(y); }
                OP("Set.assign", om.size());
                s = o; m = om;
                o.add(El<E>::make(ids)); o.clear();
                c.ev("assigned_sets");
            }
            c.eq((long) s.size(), (long) m.size(), "Set.size");
            c.eq((bool) s.isEmpty(), m.empty(), "Set.isEmpty");
            std::set<int> got; long n = 0;
            const Java::Util::Set<E> &cs = s;
            for (const E &e : cs) { got.insert(El<E>::id(e)); ++n; }
            c.check(got == m && n == (long) m.size(), "Set.iteration", show(n) + " elements visited, " + show(m.size()) + " in the set");
        }
    }
    tokBalance(c, before, "Set");
}
WORKLOAD(set_tok, 800, 20000) { setHistory<Tok>(c); }
WORKLOAD(set_string, 800, 20000) { setHistory<String>(c); }
WORKLOAD(set_integer, 400, 10000) { setHistory<Integer>(c); }
WORKLOAD(entries, 600, 10000) {                     // entries are exact pairs; a set of entries holds one per key
    Java::Util::Set<Java::Util::Map<String, Integer>::Entry> s;
    std::set<int> m;
    for (int i = 1 + c.r.upto(30); i > 0; --i) {
        int k = c.r.upto(12), v = c.r.upto(100);
        OP("entry", k, v);
        Java::Util::Map<String, Integer>::Entry e(El<String>::make(k), Integer(v));
        c.eq(El<String>::id(e.getKey()), k, "Entry.getKey");
        c.eq(e.setValue(Integer(v + 1)).intValue(), v, "Entry.setValue-result");
        c.eq(e.getValue().intValue(), v + 1, "Entry.getValue");
        c.eq((bool) s.add(e), m.insert(k).second, "Set<Entry>.add");
        c.eq((long) s.size(), (long) m.size(), "Set<Entry>.size");
    }
}
MON_MAIN
