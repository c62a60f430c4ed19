// U01: UUID text, bit fields, order, and uniqueness of generated identifiers.
#include "lib.hpp"
#include "../mon/conc.hpp"
using mon::Ctx;
using mon::Rng;
using Java::Util::UUID;
typedef unsigned __int128 u128;
static Str canon(uint64_t m, uint64_t l) {
    static const char *d = "0123456789abcdef";
    u128 v = ((u128) m << 64) | l;
    Str r;
    for (int k = 31; k >= 0; --k) { r += d[(int) ((v >> (4 * k)) & 15)]; if (k == 24 || k == 20 || k == 16 || k == 12) r += '-'; }
    return r;
}
static int hexd(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
// five hex groups of at most 8,4,4,4,12 digits (leading zeros may be left out)
static bool parse(const Str &s, uint64_t &m, uint64_t &l) {
    static const int W[5] = {8, 4, 4, 4, 12};
    uint64_t g[5]; size_t i = 0;
    for (int k = 0; k < 5; ++k) {
        int n = 0; g[k] = 0;
        for (; i < s.size() && hexd(s[i]) >= 0; ++i, ++n) { if (n >= W[k]) return false; g[k] = g[k] * 16 + (uint64_t) hexd(s[i]); }
        if (!n) return false;
        if (k < 4) { if (i >= s.size() || s[i] != '-') return false; ++i; }
    }
    if (i != s.size()) return false;
    m = g[0] << 32 | g[1] << 16 | g[2];
    l = g[3] << 48 | g[4];
    return true;
}
static void fields(Ctx &c, const UUID &u, uint64_t m, uint64_t l, const Str &how) {
    c.eq((uint64_t) u.getMostSignificantBits(), m, "UUID.getMostSignificantBits " + how);
    c.eq((uint64_t) u.getLeastSignificantBits(), l, "UUID.getLeastSignificantBits " + how);
    c.eq(N(u.toString()), canon(m, l), "UUID.toString " + how);
    int ver = (int) (m / 4096 % 16), top = (int) (l >> 61);
    c.eq(u.version(), ver, "UUID.version");
    c.eq(u.variant(), top < 4 ? 0 : top < 6 ? 2 : top, "UUID.variant");
    c.eq(u.clockSequence(), ver == 1 ? (int) (l >> 48) % 16384 : -1, "UUID.clockSequence");
    c.eq((uint64_t) u.node(), (uint64_t) (l % (1ULL << 48)), "UUID.node");
    uint64_t x = m ^ l;
    c.eq(u.hashCode(), (int) ((uint32_t) (x >> 32) ^ (uint32_t) x), "UUID.hashCode");
    c.ev(top < 4 ? "variant_0" : top < 6 ? "variant_2" : "variant_6_7"); if (ver == 1) c.ev("time_based");
}
static uint64_t bits(Rng &r) {
    switch (r.upto(4)) { case 0: return (uint64_t) r.i64(); case 1: return (uint64_t) r.range(0, 70000) << (16 * r.upto(4)); default: return r.u64(); }
}
WORKLOAD(values, 60000, 2000000) {
    uint64_t m = bits(c.r), l = bits(c.r);
    if (c.r.chance(30)) m = (m & ~0xf000ULL) | 0x1000;
    OP("UUID", (long) m, (long) l);
    UUID u((long) m, (long) l);
    fields(c, u, m, l, "");
    Str t = canon(m, l), up = t;
    for (char &ch : up) if (c.r.chance(50)) ch = (char) toupper(ch);
    Java::Lang::String src = J(up);
    UUID v = UUID::fromString(src);
    c.eq(N(src), up, "UUID.fromString-changes-input");
    fields(c, v, m, l, "of fromString");
    c.check(u.equals(v) && v.equals(u) && u.compareTo(v) == 0, "UUID.equals", "parsed text differs");
    // order: signed comparison of the halves, most significant first
    uint64_t m2 = c.r.chance(50) ? m : bits(c.r), l2 = c.r.chance(40) ? l : c.r.chance(30) ? l ^ (1ULL << c.r.upto(64)) : bits(c.r);
    if (c.r.chance(20)) m2 = m ^ (1ULL << c.r.upto(64));
    UUID w((long) m2, (long) l2);
    OP("compare", (long) m2, (long) l2);
    int want = (int64_t) m != (int64_t) m2 ? ((int64_t) m < (int64_t) m2 ? -1 : 1) : (int64_t) l != (int64_t) l2 ? ((int64_t) l < (int64_t) l2 ? -1 : 1) : 0;
    c.eq(u.compareTo(w), want, "UUID.compareTo");
    c.eq(w.compareTo(u), -want, "UUID.compareTo");
    c.eq((bool) u.equals(w), want == 0, "UUID.equals");
    if (m == m2 && l != l2) c.ev("least_bits_compared");
    if (!want) c.eq(u.hashCode(), w.hashCode(), "UUID.hashCode-of-equals");
    UUID z;
    fields(c, z, 0, 0, "of UUID()");
    z = u;
    fields(c, z, m, l, "of copy");
}
WORKLOAD(texts, 80000, 3000000) {
    Str s = canon(bits(c.r), bits(c.r));
    int edits = c.r.upto(4);
    for (int e = 0; e < edits; ++e) {
        size_t p = (size_t) c.r.upto((int) s.size() + 1);
        char ch = c.r.chance(30) ? '-' : c.r.chance(40) ? "0123456789abcdefABCDEF"[c.r.upto(22)] : c.r.chance(50) ? "gGxX +-_{}.\n"[c.r.upto(12)] : (char) c.r.u64();
        switch (c.r.upto(4)) {
            case 0: s.insert(p, 1, ch); break;
            case 1: if (p < s.size()) s[p] = ch; break;
            case 2: if (p < s.size()) s.erase(p, 1 + (size_t) c.r.upto(c.r.chance(20) ? 12 : 1)); break;
            default: if (p < s.size() && s[p] == '0') s.erase(p, 1); else if (p < s.size() && c.r.chance(30)) s.insert(p, s.substr(p, (size_t) c.r.upto(9)));
        }
    }
    if (c.r.chance(5)) { s = ""; int n = c.r.upto(20); for (int i = 0; i < n; ++i) s += "0aF-x"[c.r.upto(5)]; }
    OP("fromString", s);
    uint64_t m = 0, l = 0;
    bool ok = parse(s, m, l);
    Str ex = "";
    UUID u;
    ex = thrown([&]() { u = UUID::fromString(J(s)); });
    if (ok) { c.eq(ex, Str(""), "UUID.fromString-rejects-valid"); fields(c, u, m, l, "of text"); c.ev(s.size() < 36 ? "short_groups_accepted" : "accepted"); }
    else { c.eq(ex, Str("IllegalArgumentException"), "UUID.fromString-accepts-malformed"); c.ev("malformed_rejected"); }
}
static void generated(Ctx &c, const std::vector<std::vector<UUID>> &per, bool timed, uint64_t lo, uint64_t hi) {
    std::set<std::pair<uint64_t, uint64_t>> seen;
    std::set<uint64_t> nodes;
    uint64_t ones[2] = {0, 0}, all[2] = {~0ULL, ~0ULL};
    size_t n = 0;
    for (auto &v : per) {
        uint64_t prev = 0;
        for (const UUID &u : v) {
            uint64_t m = (uint64_t) u.getMostSignificantBits(), l = (uint64_t) u.getLeastSignificantBits();
            c.eq(u.version(), timed ? 1 : 4, "UUID.generated-version");
            c.eq(u.variant(), 2, "UUID.generated-variant");
            fields(c, u, m, l, "generated");
            c.check(seen.insert({m, l}).second, "UUID.repeated", canon(m, l));
            if (timed) {
                uint64_t t = (m >> 32) | (m >> 16 & 0xffff) << 32 | (m & 0xfff) << 48;
                c.check(t >= lo && t <= hi, "UUID.timeUUID-time", canon(m, l) + " " + std::to_string(t) + " outside " + std::to_string(lo) + ".." + std::to_string(hi));
                c.check(t > prev, "UUID.timeUUID-order", canon(m, l) + " not after its predecessor in the same thread");
                prev = t;
                nodes.insert(l % (1ULL << 48));
            }
            ones[0] |= m; ones[1] |= l; all[0] &= m; all[1] &= l; ++n;
        }
    }
    if (timed) c.eq(nodes.size(), (size_t) 1, "UUID.timeUUID-nodes");
    else if (n >= 64) {                              // every free bit takes both values
        c.eq(ones[0] & (uint64_t) ~0xf000ULL, (uint64_t) ~0xf000ULL, "UUID.randomUUID-stuck-bits");
        c.eq(ones[1] & (uint64_t) ~(3ULL << 62), (uint64_t) ~(3ULL << 62), "UUID.randomUUID-stuck-bits");
        c.eq((uint64_t) (all[0] & ~0xf000ULL), (uint64_t) 0, "UUID.randomUUID-stuck-bits");
        c.eq((uint64_t) (all[1] & ~(3ULL << 62)), (uint64_t) 0, "UUID.randomUUID-stuck-bits");
        c.ev("bit_balance_checked");
    }
    c.ev(timed ? "time_uuids" : "random_uuids", (long) n);
}
static uint64_t ticks() { struct timeval tv; gettimeofday(&tv, nullptr); return ((uint64_t) tv.tv_sec * 1000000 + (uint64_t) tv.tv_usec) * 10 + 0x01B21DD213814000ULL; }
WORKLOAD(generate, 250, 8000) {
    bool timed = c.r.chance(50);
    int n = c.r.chance(30) ? 1 : 2 + c.r.upto(7), each = 20 + c.r.upto(c.r.chance(96) ? 80 : 1500);
    OP("generate", timed, n, each);
    std::vector<std::vector<UUID>> per((size_t) n);
    uint64_t lo = ticks();
    if (n == 1) for (int k = 0; k < each * 3; ++k) per[0].push_back(timed ? UUID::timeUUID() : UUID::randomUUID());
    else {
        mon::parallel(c, n, [&](int i, Rng &) { for (int k = 0; k < each; ++k) per[(size_t) i].push_back(timed ? UUID::timeUUID() : UUID::randomUUID()); }, 10);
        c.ev("concurrent_generations");
    }
    generated(c, per, timed, lo, ticks() + 20);
}
MON_MAIN
