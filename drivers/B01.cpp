// B01: BitSet against a set of non-negative integers over operation histories.
#include "lib.hpp"
using mon::Ctx;
using Java::Util::BitSet;
typedef std::set<int> M;
static Str str(const M &m) { Str r = "{"; for (int i : m) r += (r.size() > 1 ? ", " : "") + std::to_string(i); return r + "}"; }
static std::vector<long> longs(const M &m) {
    std::vector<long> w;
    for (int i : m) { while ((int) w.size() <= i / 64) w.push_back(0); w[i / 64] = (long) ((unsigned long) w[i / 64] | (1UL << (i % 64))); }
    return w;
}
static int hash(const M &m) {
    auto w = longs(m);
    unsigned long h = 1234;
    for (size_t i = w.size(); i-- > 0;) h ^= (unsigned long) w[i] * (i + 1);
    return (int) (unsigned) ((h >> 32) ^ h);
}
static int nextSet(const M &m, int i) { auto it = m.lower_bound(i); return it == m.end() ? -1 : *it; }
static int nextClear(const M &m, int i) { while (m.count(i)) ++i; return i; }
static int prevSet(const M &m, int i) { auto it = m.upper_bound(i); return it == m.begin() ? -1 : *std::prev(it); }
static int prevClear(const M &m, int i) { while (i >= 0 && m.count(i)) --i; return i; }
static M slice(const M &m, int a, int b) { M r; for (auto it = m.lower_bound(a); it != m.end() && *it < b; ++it) r.insert(*it - a); return r; }

static int span = 200;
static int bit(Ctx &c) {                            // word boundaries are the interesting places
    if (c.r.chance(55)) { int w = c.r.upto(span / 64 + 2); return std::max(0, 64 * w + c.r.upto(5) - 2); }
    return c.r.upto(span);
}
static int probe(Ctx &c, const M &m) {
    if (m.empty() || c.r.chance(50)) return bit(c);
    auto it = m.lower_bound(bit(c));
    if (it == m.end()) it = std::prev(it);
    return std::max(0, *it + c.r.upto(3) - 1);
}
static void light(Ctx &c, const BitSet &b, const M &m) {
    c.eq(b.cardinality(), (int) m.size(), "BitSet.cardinality");
    int len = m.empty() ? 0 : *m.rbegin() + 1;
    c.eq(b.length(), len, "BitSet.length");
    c.eq((bool) b.isEmpty(), m.empty(), "BitSet.isEmpty");
    c.check(b.size() % 64 == 0 && b.size() >= len, "BitSet.size", "size " + std::to_string(b.size()) + " length " + std::to_string(len));
    for (int k = 0; k < 3; ++k) {
        int i = probe(c, m);
        c.eq((bool) b.get(i), m.count(i) > 0, "BitSet.get");
        c.eq(b.nextSetBit(i), nextSet(m, i), "BitSet.nextSetBit");
        c.eq(b.nextClearBit(i), nextClear(m, i), "BitSet.nextClearBit");
        c.eq(b.previousSetBit(i), prevSet(m, i), "BitSet.previousSetBit");
        c.eq(b.previousClearBit(i), prevClear(m, i), "BitSet.previousClearBit");
    }
}
static void deep(Ctx &c, const BitSet &b, const M &m) {
    light(c, b, m);
    M got;
    for (int i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) { got.insert(i); if (got.size() > m.size() + 3) break; }
    c.check(got == m, "BitSet.content", "walk " + str(got) + " model " + str(m));
    c.eq(N(b.toString()), str(m), "BitSet.toString");
    c.eq(b.hashCode(), hash(m), "BitSet.hashCode");
    auto w = longs(m);
    c.check(V(b.toLongArray()) == w, "BitSet.toLongArray", "differs");
    Array<byte> by = b.toByteArray();
    int len = m.empty() ? 0 : *m.rbegin() + 1;
    c.eq((int) by.length, (len + 7) / 8, "BitSet.toByteArray-length");
    for (int i = 0; i < by.length; ++i) {
        int v = 0;
        for (int k = 0; k < 8; ++k) v |= (m.count(i * 8 + k) ? 1 : 0) << k;
        c.eq((int) (unsigned char) by.get(i), v, "BitSet.toByteArray");
    }
    c.eq(b.previousSetBit(-1), -1, "BitSet.previousSetBit"); c.eq(b.previousClearBit(-1), -1, "BitSet.previousClearBit");
}
static void pairwise(Ctx &c, BitSet &a, const M &ma, BitSet &b, const M &mb) {
    bool inter = false;
    for (int i : ma) if (mb.count(i)) inter = true;
    if (inter) c.ev("intersecting_pairs"); else c.ev("disjoint_pairs");
    c.eq((bool) a.intersects(b), inter, "BitSet.intersects");
    c.eq((bool) b.intersects(a), inter, "BitSet.intersects");
    c.eq((bool) a.equals(b), ma == mb, "BitSet.equals");
    c.eq((bool) (b == a), ma == mb, "BitSet.==");
    if (ma == mb) { c.ev("equal_pairs"); c.eq(a.hashCode(), b.hashCode(), "BitSet.hash-of-equal"); }
}
static Str act(std::function<void()> f) { try { f(); return ""; } catch (IndexOutOfBoundsException &) { return "ioobe"; } catch (mon::Violation &) { throw; } catch (...) { return "other"; } }
static void history(Ctx &c) {
    span = c.r.chance(30) ? 66 : c.r.chance(50) ? 200 : c.r.chance(80) ? 700 : 6000;
    const int K = 3;
    std::unique_ptr<BitSet> b[K]; M m[K];
    for (int i = 0; i < K; ++i) {
        int n = c.r.upto(4) == 0 ? c.r.upto(3) * 64 + c.r.upto(3) : -1;
        OP("BitSet", i, n);
        if (n < 0) b[i].reset(new BitSet()); else b[i].reset(new BitSet(n));
        if (n >= 0) c.eq(b[i]->size(), (n + 63) / 64 * 64, "BitSet.initial-size");
    }
    int steps = 5 + c.r.size(60);
    for (int k = 0; k < steps; ++k) {
        int s = c.r.upto(K), t = c.r.upto(K), op = c.r.upto(24);
        BitSet &x = *b[s]; M &mx = m[s];
        int i = probe(c, mx), j = probe(c, mx), lo = std::min(i, j), hi = std::max(i, j);
        if (hi - lo >= 64) c.ev("multiword_ranges");
        if (hi % 64 == 0) c.ev("ranges_to_word_end");
        switch (op) {
            case 0: case 1: OP("set", s, i); x.set(i); mx.insert(i); break;
            case 2: OP("clear", s, i); x.clear(i); mx.erase(i); break;
            case 3: OP("flip", s, i); x.flip(i); if (!mx.erase(i)) mx.insert(i); break;
            case 4: { bool v = c.r.chance(50); OP("set_value", s, i, v); x.set(i, v); if (v) mx.insert(i); else mx.erase(i); break; }
            case 5: case 6: OP("set_range", s, lo, hi); x.set(lo, hi); for (int q = lo; q < hi; ++q) mx.insert(q); break;
            case 7: case 8: { if (c.r.chance(20)) hi += 500; OP("clear_range", s, lo, hi); x.clear(lo, hi); mx.erase(mx.lower_bound(lo), mx.lower_bound(hi)); break; }
            case 9: case 10: OP("flip_range", s, lo, hi); x.flip(lo, hi); for (int q = lo; q < hi; ++q) if (!mx.erase(q)) mx.insert(q); break;
            case 11: { bool v = c.r.chance(50); OP("set_range_value", s, lo, hi, v); x.set(lo, hi, v); for (int q = lo; q < hi; ++q) if (v) mx.insert(q); else mx.erase(q); break; }
            case 12: case 13: { if (c.r.chance(20)) hi += 500; OP("get_range", s, lo, hi); BitSet g = x.get(lo, hi); deep(c, g, slice(mx, lo, hi)); c.ev("slices"); break; }
            case 14: { OP("and", s, t); x.bitAnd(*b[t]); M r; for (int q : mx) if (m[t].count(q)) r.insert(q); mx = r; break; }
            case 15: { OP("or", s, t); x.bitOr(*b[t]); M o = m[t]; mx.insert(o.begin(), o.end()); break; }
            case 16: { OP("xor", s, t); x.bitXor(*b[t]); M o = m[t]; for (int q : o) if (!mx.erase(q)) mx.insert(q); break; }
            case 17: { OP("andNot", s, t); x.andNot(*b[t]); M o = m[t]; for (int q : o) mx.erase(q); break; }
            case 18: { OP("assign", s, t); if (c.r.chance(50)) x.toString(); x = *b[t]; mx = M(m[t]); if (s == t) c.ev("self_assignments"); break; }
            case 19: {
                OP("copy", s);
                BitSet cp(x); M cm = mx;
                BitSet cl = x.clone();
                cp.flip(lo, hi); for (int q = lo; q < hi; ++q) if (!cm.erase(q)) cm.insert(q);
                deep(c, cp, cm); deep(c, cl, mx); pairwise(c, cp, cm, cl, mx);
                break;
            }
            case 20: {
                int kind = c.r.upto(2), z = c.r.upto(3);
                OP("valueOf", s, kind, z);
                if (kind) { auto w = longs(mx); for (int q = 0; q < z; ++q) w.push_back(0); BitSet g = BitSet::valueOf(A<long>(w)); deep(c, g, mx); g.set(i); M gm = mx; gm.insert(i); deep(c, g, gm); }
                else { std::vector<byte> w; for (int q : mx) { while ((int) w.size() <= q / 8) w.push_back(0); w[q / 8] = (byte) ((unsigned char) w[q / 8] | (1 << (q % 8))); } for (int q = 0; q < z * 5; ++q) w.push_back(0); BitSet g = BitSet::valueOf(A<byte>(w)); deep(c, g, mx); g.flip(i); M gm = mx; if (!gm.erase(i)) gm.insert(i); deep(c, g, gm); }
                break;
            }
            case 21: { if (!c.r.chance(25)) break; OP("clear_all", s); x.clear(); mx.clear(); break; }
            case 22: OP("pair", s, t); pairwise(c, x, mx, *b[t], m[t]); break;
            default: {                              // rejected arguments change nothing
                int neg = c.r.chance(50) ? -1 : -1 - c.r.upto(200), bad = c.r.upto(14);
                OP("bad", s, bad, neg, lo, hi);
                Str e;
                switch (bad) {
                    case 0: e = act([&]() { x.set(neg); }); break;
                    case 1: e = act([&]() { x.clear(neg); }); break;
                    case 2: e = act([&]() { x.flip(neg); }); break;
                    case 3: e = act([&]() { x.get(neg); }); break;
                    case 4: e = act([&]() { x.nextSetBit(neg); }); break;
                    case 5: e = act([&]() { x.nextClearBit(neg); }); break;
                    case 6: e = act([&]() { x.previousSetBit(neg - 1); }); break;
                    case 7: e = act([&]() { x.previousClearBit(neg - 1); }); break;
                    case 8: e = act([&]() { x.set(neg, hi); }); break;
                    case 9: e = act([&]() { x.clear(lo, neg); }); break;
                    case 10: e = act([&]() { x.flip(hi + 1, lo); }); break;
                    case 11: e = act([&]() { x.get(hi + 1, lo); }); break;
                    case 12: e = act([&]() { x.set(hi + 1, hi, true); }); break;
                    default: try { BitSet z(neg); e = "accepted"; } catch (NegativeArraySizeException &) { e = "ioobe"; }
                }
                c.eq(e, Str("ioobe"), "BitSet.rejects-bad-range");
                c.ev("rejected");
            }
        }
        light(c, x, mx);
        if (k % 6 == 5) { deep(c, x, mx); pairwise(c, x, mx, *b[t], m[t]); }
    }
    for (int i = 0; i < K; ++i) deep(c, *b[i], m[i]);
}
WORKLOAD(histories, 6000, 200000) { history(c); }
WORKLOAD(word_pairs, 4000, 100000) {                // every single range on a small set, then undone
    span = 140;
    BitSet b; M m;
    for (int k = 0, n = c.r.upto(6); k < n; ++k) { int i = bit(c); OP("set", i); b.set(i); m.insert(i); }
    int lo = bit(c), hi = lo + c.r.upto(140);
    OP("range", lo, hi);
    BitSet x(b); x.flip(lo, hi); M mx = m; for (int q = lo; q < hi; ++q) if (!mx.erase(q)) mx.insert(q);
    deep(c, x, mx); deep(c, x.get(lo, hi), slice(mx, lo, hi));
    x.flip(lo, hi); deep(c, x, m); pairwise(c, x, m, b, m);
    BitSet y(b); y.set(lo, hi); mx = m; for (int q = lo; q < hi; ++q) mx.insert(q);
    deep(c, y, mx);
    y.clear(lo, hi); mx = m; mx.erase(mx.lower_bound(lo), mx.lower_bound(hi));
    deep(c, y, mx);
    y.bitOr(b); deep(c, y, m);
}
WORKLOAD(far, 40, 1500) {
    BitSet b; M m;
    for (int k = 0; k < 6; ++k) { int i = 1 << (6 + c.r.upto(15)); i += c.r.upto(3) - 1; OP("set", i); b.set(i); m.insert(i); light(c, b, m); }
    c.eq(b.nextSetBit(2147483647), -1, "BitSet.nextSetBit"); c.eq(b.nextClearBit(2147483647), 2147483647, "BitSet.nextClearBit");
    c.eq((bool) b.get(2147483647), false, "BitSet.get"); b.clear(2147483647); b.clear(1 << 30, 2147483647);
    light(c, b, m);
    int i = *m.rbegin(); OP("clear_range", i); b.clear(i, 2147483647); m.erase(i);
    deep(c, b, m);
}
MON_MAIN
