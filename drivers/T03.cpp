// T03: ConcurrentHashMap: linearizable per map, conserved values, sequential model.
#include "tok.hpp"
#include "../mon/conc.hpp"
using mon::Ctx;
using mon::Rng;
#ifdef __SANITIZE_THREAD__
#define TS(n, d) ((n) / (d))                          // fewer of the slow cases under TSan
#else
#define TS(n, d) (n)
#endif
template<class K, class V> using CHM = Java::Util::Concurrent::ConcurrentHashMap<K, V>;
typedef Java::Lang::String S;

// ---- short histories over few keys, decided against a plain map
struct Op : mon::Timed { int kind, k, v, w; Str res; };
typedef std::map<int, int> St;
static const char *KN[] = {"put", "get", "containsKey", "find", "getOrDefault", "putIfAbsent", "remove", "removeKV", "replace", "replaceKVV", "size", "clear", "containsValue", "isEmpty", "forEach", "copy"};
static const int KINDS = 16;
static Str model(St &m, const Op &o) {
    auto it = m.find(o.k);
    bool in = it != m.end();
    int old = in ? it->second : 0;
    switch (o.kind) {
        case 0: m[o.k] = o.v; return "";
        case 1: return show(old);
        case 2: case 3: return show((int) in);
        case 4: return show(in ? old : o.w);
        case 5: if (!in) m[o.k] = o.v; return show(old);
        case 6: m.erase(o.k); return show(old);
        case 7: if (in && old == o.w) { m.erase(o.k); return "1"; } return "0";
        case 8: if (in) m[o.k] = o.v; return show(old);
        case 9: if (in && old == o.w) { m[o.k] = o.v; return "1"; } return "0";
        case 10: return show((int) m.size());
        case 11: m.clear(); return "";
        case 12: { int f = 0; for (auto &e : m) if (e.second == o.w) f = 1; return show(f); }
        case 13: return show((int) m.empty());
        default: { Str r; for (auto &e : m) r += show(e.first) + "=" + show(e.second) + ","; return r; }
    }
}
template<class K, class V> struct Box {             // how ids become keys and values
    static K k(int i) { return El<K>::make(i); }
    static V v(int i) { return i ? El<V>::make(i) : V(); }
    static int id(const V &x) { return x == V() ? 0 : El<V>::id(x); }
    static int kid(const K &x) { return El<K>::id(x); }
};
template<> struct Box<int, long> {
    static int k(int i) { return i; }
    static long v(int i) { return i; }
    static int id(long x) { return (int) x; }
    static int kid(int x) { return x; }
};
template<class K, class V> static Str dump(CHM<K, V> &m) {
    St s;
    int n = 0;
    m.forEach([&](K k, V v) { s[Box<K, V>::kid(k)] = Box<K, V>::id(v); ++n; return true; });
    if (n != (int) s.size()) return "duplicate keys";
    Str r; for (auto &e : s) r += show(e.first) + "=" + show(e.second) + ",";
    return r;
}
template<class K, class V> static Str exec(CHM<K, V> &m, const Op &o) {
    typedef Box<K, V> B;
    K k = B::k(o.k); V v = B::v(o.v), w = B::v(o.w);
    switch (o.kind) {
        case 0: m.put(k, v); return "";
        case 1: return show(B::id(m.get(k)));
        case 2: return show((int) m.containsKey(k));
        case 3: return show((int) m.find(k));
        case 4: return show(B::id(m.getOrDefault(k, w)));
        case 5: return show(B::id(m.putIfAbsent(k, v)));
        case 6: return show(B::id(m.remove(k)));
        case 7: return show((int) m.remove(k, w));
        case 8: return show(B::id(m.replace(k, v)));
        case 9: return show((int) m.replace(k, w, v));
        case 10: return show((int) m.size());
        case 11: m.clear(); return "";
        case 12: return show((int) m.containsValue(w));
        case 13: return show((int) m.isEmpty());
        case 14: return dump<K, V>(m);
        default: { if (o.v % 2) { CHM<K, V> c(m); return dump<K, V>(c); } CHM<K, V> c = m.clone(); return dump<K, V>(c); }
    }
}
static Op draw(Rng &r, int keys, bool whole, int &next) {
    Op o;
    o.kind = r.chance(whole ? 30 : 2) ? 10 + r.upto(KINDS - 10) : r.upto(10);
    o.k = 1 + r.upto(keys); o.v = r.chance(70) ? next++ : 1 + r.upto(3); o.w = 1 + r.upto(std::max(3, next - 1));
    if (o.kind == 5 || o.kind == 0) o.v = next++;
    return o;
}
template<class K, class V> static void linear(Ctx &c) {
    int n = 2 + c.r.upto(3), each = 2 + c.r.upto(n == 2 ? 5 : 3), keys = 1 + c.r.upto(2), next = 1;
    bool whole = c.r.chance(40);
    OP("linear", n, each, keys, whole);
    CHM<K, V> m;
    St init;
    for (int k = 1; k <= keys; ++k) if (c.r.chance(50)) { m.put(Box<K, V>::k(k), Box<K, V>::v(next)); init[k] = next++; }
    std::vector<std::vector<Op>> per((size_t) n);
    for (auto &v : per) for (int i = 0; i < each; ++i) v.push_back(draw(c.r, keys, whole, next));
    mon::parallel(c, n, [&](int i, Rng &) {
        for (Op &o : per[(size_t) i]) { mon::maybeDelay(); o.call = mon::now(); o.res = exec<K, V>(m, o); o.ret = mon::now(); }
    }, 30);
    std::vector<Op> all;
    for (auto &v : per) all.insert(all.end(), v.begin(), v.end());
    Op fin; fin.kind = 14; fin.k = fin.v = fin.w = 0; fin.call = mon::now(); fin.res = dump<K, V>(m); fin.ret = mon::now();
    all.push_back(fin);
    uint64_t explored = 0;
    bool ok = mon::linearizable<St, Op>(all, init, [](St &s, const Op &o) { return model(s, o) == o.res; },
        [](const St &s) { Str r; for (auto &e : s) r += show(e.first) + "=" + show(e.second) + ","; return r; }, &explored);
    Str d;
    for (Op &o : all) d += show((int) o.call) + "-" + show((int) o.ret) + ":" + KN[o.kind] + "(" + show(o.k) + "," + show(o.v) + "," + show(o.w) + ")=" + o.res + " ";
    c.check(ok, "not-linearizable", d);
    c.ev("histories_checked"); c.ev("overlapping_pairs", mon::overlaps(all)); c.ev("states_searched", explored);
    c.sigx = mon::mix(c.sigx ^ mon::hstr(d));
}
WORKLOAD(linear_int, TS(300, 2), TS(4000, 2)) { linear<int, long>(c); }
WORKLOAD(linear_string, TS(200, 2), TS(3000, 2)) { linear<S, S>(c); }

// ---- every value put by putIfAbsent is given to exactly one remover, or is still there
WORKLOAD(conserve, 120, 2000) {
    int n = 2 + c.r.upto(5), each = 20 + c.r.upto(60), keys = 1 + c.r.upto(4);
    OP("conserve", n, each, keys);
    CHM<int, S> m;
    std::vector<std::vector<Str>> put((size_t) n), got((size_t) n);
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (int s = 0; s < each; ++s) {
            int k = r.upto(keys);
            Str v = show(i) + ":" + show(s);
            switch (r.upto(5)) {
                case 0: case 1: if (m.putIfAbsent(k, J(v)) == S()) put[(size_t) i].push_back(v); break;
                case 2: { Str g = m.remove(k).toSTLString(); if (g != "") got[(size_t) i].push_back(g); break; }
                case 3: { Str g = m.get(k).toSTLString(); if (g != "" && m.remove(k, J(g))) got[(size_t) i].push_back(g); break; }
                default: { Str g = m.replace(k, J(v)).toSTLString(); if (g != "") { got[(size_t) i].push_back(g); put[(size_t) i].push_back(v); } }
            }
        }
    });
    std::multiset<Str> in, out;
    for (auto &p : put) in.insert(p.begin(), p.end());
    for (auto &p : got) out.insert(p.begin(), p.end());
    c.ev("values_removed", out.size());
    for (int k = 0; k < keys; ++k) { Str g = m.get(k).toSTLString(); if (g != "") out.insert(g); }
    c.check(in == out, "values-not-conserved", show((int) in.size()) + " put, " + show((int) out.size()) + " accounted for");
    Str h; for (auto &p : got) for (auto &v : p) h += v;
    c.sigx = mon::mix(c.sigx ^ mon::hstr(h));
}
// ---- distinct keys inserted while the table grows
WORKLOAD(growth, TS(40, 4), TS(700, 4)) {
    int n = 2 + c.r.upto(5), each = 60 + c.r.upto(250);
    OP("growth", n, each);
    CHM<S, Tok> m;
    std::atomic<int> bad{0};
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (int s = 0; s < each; ++s) {
            m.put(J("key-" + show(i) + "-" + show(s)), Tok(i * 10000 + s));
            if (r.chance(30)) { int q = r.upto(s + 1); if (m.get(J("key-" + show(i) + "-" + show(q))).v != i * 10000 + q) bad.fetch_add(1, std::memory_order_relaxed); }
            if (s % 37 == 0) { long sz = m.size(); if (sz < s + 1 || sz > (long) n * each) bad.fetch_add(1, std::memory_order_relaxed); }
            if (r.chance(10)) { m.remove(J("key-" + show(i) + "-" + show(s))); m.put(J("key-" + show(i) + "-" + show(s)), Tok(i * 10000 + s)); }
        }
    }, 0);
    c.eq(bad.load(), 0, "growth.lost-own-write");
    c.eq((int) m.size(), n * each, "growth.size");
    for (int i = 0; i < n; ++i) for (int s = 0; s < each; ++s) c.eq(m.get(J("key-" + show(i) + "-" + show(s))).v, i * 10000 + s, "growth.lost");
    c.ev("keys_inserted", (uint64_t) (n * each));
}
// ---- keys whose hashes share their bucket: inserting one displaces others, which must stay visible throughout
struct Crowd { int i; Crowd(int x = 0) : i(x) {} bool operator==(const Crowd &o) const { return i == o.i; } };
namespace std { template<> struct hash<Crowd> { size_t operator()(const Crowd &k) const { return ((size_t) (k.i * 2654435761u) << 20) | (size_t) (k.i % 3); } }; }
WORKLOAD(displace, 60, 1000) {
    int n = 2 + c.r.upto(4), each = 30 + c.r.upto(600 / n);
    OP("displace", n, each);
    CHM<Crowd, long> m;
    std::vector<int> fixed;
    for (int i = 0; i < 60; ++i) { m.put(Crowd(100000 + i), 100000 + i); fixed.push_back(100000 + i); }
    std::atomic<int> bad{0};
    std::atomic<long> seen{0};
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (int s = 0; s < each; ++s) {
            int k = i * 1000 + s;
            m.put(Crowd(k), k);
            for (int q = 0; q < 4; ++q) { int f = fixed[(size_t) r.upto(60)]; if (m.get(Crowd(f)) != f) bad.fetch_add(1, std::memory_order_relaxed); }
            int q = i * 1000 + r.upto(s + 1);
            long g = m.get(Crowd(q));
            if (g != q) bad.fetch_add(1, std::memory_order_relaxed);
            if (r.chance(15)) { if (m.remove(Crowd(q)) != q || m.containsKey(Crowd(q))) bad.fetch_add(1, std::memory_order_relaxed); m.put(Crowd(q), q); }
            seen.fetch_add(5, std::memory_order_relaxed);
        }
    }, 0);
    c.eq(bad.load(), 0, "displace.lost");
    c.eq((int) m.size(), n * each + 60, "displace.size");
    for (int i = 0; i < n; ++i) for (int s = 0; s < each; ++s) c.eq(m.get(Crowd(i * 1000 + s)), (long) i * 1000 + s, "displace.lost");
    c.ev("displaced_reads", (uint64_t) seen.load());
}
// ---- the same keys put by all threads at once into full buckets: each key has exactly one first writer and one place
WORKLOAD(displace_same, 80, 1500) {
    int n = 2 + c.r.upto(4), keys = 40 + c.r.upto(160), rounds = 1 + c.r.upto(3);
    OP("displace_same", n, keys, rounds);
    CHM<Crowd, long> m;
    for (int round = 0; round < rounds; ++round) {
        std::vector<std::vector<int>> won((size_t) n), taken((size_t) n);
        mon::parallel(c, n, [&](int i, Rng &r) {
            for (int k = 0; k < keys; ++k) if (m.putIfAbsent(Crowd(k), i + 1L) == 0) won[(size_t) i].push_back(k); else if (r.chance(5)) sched_yield();
        }, 20);
        std::vector<int> first((size_t) keys, 0);
        for (int i = 0; i < n; ++i) for (int k : won[(size_t) i]) { c.eq(first[(size_t) k], 0, "displace_same.two-first-writers"); first[(size_t) k] = i + 1; }
        c.eq((int) m.size(), keys, "displace_same.size");
        for (int k = 0; k < keys; ++k) c.eq(m.get(Crowd(k)), (long) first[(size_t) k], "displace_same.value");
        mon::parallel(c, n, [&](int i, Rng &) { for (int k = keys; k-- > 0;) if (m.remove(Crowd(k)) != 0) taken[(size_t) i].push_back(k); }, 20);
        std::vector<int> gone((size_t) keys, 0);
        for (auto &t : taken) for (int k : t) c.eq(++gone[(size_t) k], 1, "displace_same.removed-twice");
        for (int k = 0; k < keys; ++k) c.eq(gone[(size_t) k], 1, "displace_same.not-removed");
        c.eq((int) m.size(), 0, "displace_same.size-after");
    }
    c.ev("keys_raced_for", (uint64_t) (keys * rounds));
}
// ---- past the initial table: resizing while other threads read, write and remove
// Keys crowding into a handful of buckets, all of them nearly full, with delays inside their hash and comparison: every
// insertion moves others while further threads insert, remove and read the same keys. A bucket holds four entries.
struct Tight { int i; Tight(int x = 0) : i(x) {} bool operator==(const Tight &o) const { mon::maybeDelay(); return i == o.i; } };
namespace std { template<> struct hash<Tight> { size_t operator()(const Tight &k) const { mon::maybeDelay(); size_t base = (size_t) (k.i / 1000), tag = (size_t) (k.i / 10 % 100); return (30000 + base * 20011) | tag * 7 % 256 << 40 | (size_t) (k.i % 10) << 48 | (size_t) (k.i % 10) << 56; } }; }
WORKLOAD(tight, TS(250, 2), TS(5000, 2)) {
    int n = 2 + c.r.upto(4), tags = 4 + c.r.upto(4), bases = 1 + c.r.upto(2), each = 20 + c.r.upto(120), style = c.r.upto(3);
    OP("tight", n, tags, bases, each, style);
    std::vector<int> keys;
    for (int b = 0; b < bases; ++b) for (int t = 0, extra = 3; t < tags; ++t) { int k = 4; if (extra && c.r.chance(70)) { ++k; --extra; } for (int q = 0; q < k; ++q) keys.push_back(b * 1000 + t * 10 + q); }
    CHM<Tight, long> m;
    const int K = (int) keys.size();
    struct Log { std::vector<std::pair<int, long>> put, taken, seen; int refused = 0, bad = 0; };
    std::vector<Log> logs((size_t) n);
    mon::parallel(c, n, [&](int i, Rng &r) {
        Log &l = logs[(size_t) i];
        long stamp = (i + 1) * 1000000L;
        for (int s = 0; s < each; ++s) {
            int at = style == 2 ? s % K : r.upto(K), kind = style == 2 ? s / K % 2 : r.upto(10) < (style ? 6 : 4) ? 0 : r.upto(10) < 6 ? 1 : 2;
            Tight k(keys[(size_t) at]);
            try {
                if (kind == 0) { if (m.putIfAbsent(k, ++stamp) == 0) l.put.push_back({at, stamp}); }
                else if (kind == 1) { long v = m.remove(k); if (v) l.taken.push_back({at, v}); }
                else { long v = m.get(k); if (v) l.seen.push_back({at, v}); }
            } catch (const std::exception &) { ++l.refused; }
        }
    }, 8);
    std::map<long, int> owner; std::map<long, int> gone; std::vector<int> there((size_t) K, 0);
    uint64_t removed = 0, seen = 0, refused = 0;
    for (auto &l : logs) { refused += (uint64_t) l.refused; for (auto &p : l.put) { owner[p.second] = p.first; ++there[(size_t) p.first]; } }
    for (auto &l : logs) for (auto &p : l.taken) {
        c.check(owner.count(p.second) && owner[p.second] == p.first, "tight.invented", show(p.second));
        c.check(++gone[p.second] == 1, "tight.removed-twice", show(p.second));
        --there[(size_t) p.first]; ++removed;
    }
    for (auto &l : logs) for (auto &p : l.seen) { c.check(owner.count(p.second) && owner[p.second] == p.first, "tight.invented", show(p.second)); ++seen; }
    int left = 0;
    for (int at = 0; at < K; ++at) {
        long v = m.get(Tight(keys[(size_t) at]));
        c.check(there[(size_t) at] == 0 || there[(size_t) at] == 1, "tight.two-first-writers", show(keys[(size_t) at]) + ": " + show(there[(size_t) at]));
        c.eq(v != 0, there[(size_t) at] == 1, "tight.presence");
        if (v) { c.check(owner.count(v) && owner[v] == at && !gone.count(v), "tight.value", show(v)); ++left; }
    }
    c.eq((int) m.size(), left, "tight.size");
    for (int at = 0; at < K; ++at) { m.remove(Tight(keys[(size_t) at])); c.check(!m.containsKey(Tight(keys[(size_t) at])), "tight.still-there", show(keys[(size_t) at])); }
    c.eq((int) m.size(), 0, "tight.size-after");
    c.ev("tight_removals", removed); c.ev("tight_reads", seen); c.ev("tight_refusals", refused);
}
// the same crowding from one thread against a model
WORKLOAD(packed, TS(400, 16), TS(8000, 16)) {
    int tags = 3 + c.r.upto(4), steps = 30 + c.r.upto(200);
    std::vector<int> keys;
    for (int t = 0, extra = 3; t < tags; ++t) { int k = 4; if (extra) { ++k; --extra; } for (int q = 0; q < k; ++q) keys.push_back(t * 10 + q); }
    CHM<Tight, long> m; std::map<int, long> w;
    for (int s = 0; s < steps; ++s) {
        int k = keys[(size_t) c.r.upto((int) keys.size())], kind = c.r.upto(7);
        long v = s + 1, old = w.count(k) ? w[k] : 0;
        OP("packed", kind, k, v);
        switch (kind) {
            case 0: case 1: m.put(Tight(k), v); w[k] = v; break;
            case 2: c.eq(m.putIfAbsent(Tight(k), v), old, "packed.putIfAbsent"); if (!old) w[k] = v; break;
            case 3: c.eq(m.remove(Tight(k)), old, "packed.remove"); w.erase(k); break;
            case 4: c.eq(m.replace(Tight(k), v), old, "packed.replace"); if (old) w[k] = v; break;
            case 5: c.eq((bool) m.containsKey(Tight(k)), old != 0, "packed.containsKey"); break;
            default: c.eq(m.get(Tight(k)), old, "packed.get");
        }
        if (c.r.chance(4)) c.eq((int) m.size(), (int) w.size(), "packed.size");
    }
    for (int k : keys) c.eq(m.get(Tight(k)), w.count(k) ? w[k] : 0L, "packed.get");
    CHM<Tight, long> copy(m);
    for (int k : keys) { c.eq(copy.get(Tight(k)), w.count(k) ? w[k] : 0L, "packed.copied"); c.eq(m.remove(Tight(k)), w.count(k) ? w[k] : 0L, "packed.remove"); c.eq((bool) m.containsKey(Tight(k)), false, "packed.duplicate"); }
    c.eq((int) m.size(), 0, "packed.size-after"); c.eq((int) copy.size(), (int) w.size(), "packed.copied-size");
    c.ev("packed_steps", (uint64_t) steps);
}
WORKLOAD(resize, 2, 24) {
    int n = 3 + c.r.upto(3), each = 300000 / n + c.r.upto(20000);
    OP("resize", n, each);
    CHM<int, long> m;
    std::atomic<int> bad{0};
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (int s = 0; s < each; ++s) {
            int k = i * 1000000 + s;
            m.put(k, k + 1L);
            if (s % 8 == 0) { int q = i * 1000000 + r.upto(s + 1); if (m.get(q) != q + 1L) bad.fetch_add(1, std::memory_order_relaxed); }
            if (s % 16 == 0) { if (m.remove(k) != k + 1L || m.containsKey(k)) bad.fetch_add(1, std::memory_order_relaxed); m.putIfAbsent(k, k + 1L); }
        }
    }, 0);
    c.eq(bad.load(), 0, "resize.lost-own-write");
    c.eq((long) m.size(), (long) n * each, "resize.size");
    for (int i = 0; i < n; ++i) for (int s = 0; s < each; ++s) { long g = m.get(i * 1000000 + s); if (g != i * 1000000 + s + 1L) c.eq(g, i * 1000000 + s + 1L, "resize.lost"); }
    c.ev("resized_keys", (uint64_t) n * (uint64_t) each);
}
// ---- compare-and-replace counters: no lost update
WORKLOAD(counter, 100, 1500) {
    int n = 2 + c.r.upto(4), each = 10 + c.r.upto(40);
    OP("counter", n, each);
    CHM<int, long> m;
    std::atomic<long> retries{0};
    mon::parallel(c, n, [&](int, Rng &r) {
        for (int s = 0; s < each; ++s) {
            if (r.chance(10)) m.putIfAbsent(1, 1000L);
            for (;;) {
                long v = m.get(1);
                if (v == 0) { m.putIfAbsent(1, 1000L); continue; }
                if (m.replace(1, v, v + 1)) break;
                retries.fetch_add(1, std::memory_order_relaxed);
            }
        }
    });
    c.eq(m.get(1), 1000L + n * each, "counter.lost-update");
    c.ev("cas_retries", (uint64_t) retries.load());
    c.sigx = mon::mix(c.sigx ^ (uint64_t) retries.load());
}
// ---- one thread, long histories
template<class K, class V> static void sequential(Ctx &c) {
    CHM<K, V> m; St s;
    int keys = c.r.chance(50) ? 5 : 200, next = 1, steps = 10 + c.r.size(120);
    for (int i = 0; i < steps; ++i) {
        Op o = draw(c.r, keys, false, next);
        OP(KN[o.kind], o.k, o.v, o.w);
        if (o.kind == 11 && c.r.chance(70)) o.kind = 0;
        c.eq(exec<K, V>(m, o), model(s, o), Str("sequential.") + KN[o.kind]);
        if (o.kind == 15) { CHM<K, V> other(m); c.check(other.equals(m) && m.equals(other) && m.equals(m), "equals", "copies differ"); other.put(Box<K, V>::k(o.k), Box<K, V>::v(next++)); c.check(!other.equals(m) && !m.equals(other), "equals", "different maps are equal"); c.ev("copies_compared"); }
        if (o.kind == 12) { int n = 0, stop = c.r.upto(4); m.forEach([&](K, V) { ++n; if (m.size() != (long) s.size()) n = -1000; return n <= stop; }); c.eq(n, std::min((int) s.size(), stop + 1), "forEach-stop"); }
    }
    Op f; f.kind = 14; f.k = f.v = f.w = 0;
    c.eq(exec<K, V>(m, f), model(s, f), "sequential.final");
    for (int k = 1; k <= keys; ++k) c.eq((bool) m.containsKey(Box<K, V>::k(k)), s.count(k) > 0, "sequential.containsKey");
    m.reinitialize(); c.eq((int) m.size(), 0, "sequential.reinitialize");
}
WORKLOAD(sequential_int, TS(300, 30), TS(8000, 30)) { sequential<int, long>(c); }
WORKLOAD(sequential_string, TS(200, 30), TS(6000, 30)) { sequential<S, S>(c); }
MON_MAIN
