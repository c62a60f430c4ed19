// R01: Random against the documented linear congruential generator (48-bit state), sequentially and shared by threads.
#include "lib.hpp"
#include "../mon/conc.hpp"
#include <atomic>
using mon::Ctx;
using mon::Rng;
using Java::Util::Random;
struct Gen {
    uint64_t s = 0; bool have = false; double spare = 0;
    explicit Gen(int64_t seed = 0) { set(seed); }
    void set(int64_t seed) { s = ((uint64_t) seed ^ 0x5DEECE66DULL) & 0xffffffffffffULL; have = false; }
    uint32_t raw(int bits) { s = (s * 25214903917ULL + 11) % (1ULL << 48); return (uint32_t) (s >> (48 - bits)); }
    int32_t i32() { return (int32_t) raw(32); }
    int32_t below(int32_t n) {
        if (!(n & (n - 1))) return (int32_t) ((uint64_t) n * raw(31) >> 31);
        for (;;) { int64_t b = raw(31), v = b % n; if (b - v + n - 1 <= 0x7fffffffLL) return (int32_t) v; }
    }
    int64_t i64() { uint64_t hi = (uint64_t) (int64_t) i32() << 32; return (int64_t) (hi + (uint64_t) (int64_t) i32()); }
    bool b() { return raw(1); }
    float f() { return (float) raw(24) / 16777216.0f; }
    double d() { uint64_t hi = raw(26); uint64_t lo = raw(27); return (double) ((hi << 27) + lo) / 9007199254740992.0; }
    double g() {
        if (have) { have = false; return spare; }
        double a, b2, q;
        do { a = 2 * d() - 1; b2 = 2 * d() - 1; q = a * a + b2 * b2; } while (q >= 1 || q == 0);
        double m = std::sqrt(-2 * std::log(q) / q);
        spare = b2 * m; have = true;
        return a * m;
    }
    Str str(int n) { Str r; for (int i = 0; i < n; ++i) r += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[below(62)]; return r; }
    Str bytes(int n) { Str r; while ((int) r.size() < n) { uint32_t w = raw(32); for (int k = 0; k < 4 && (int) r.size() < n; ++k, w >>= 8) r += (char) w; } return r; }
};
static void close(Ctx &c, double got, double want, const char *what) {
    c.check(got == want || std::fabs(got - want) <= 1e-12 * std::fabs(want), what, "got " + mon::show(got) + " want " + mon::show(want));
}
static int bound(Rng &r) {
    switch (r.upto(5)) { case 0: return 1 << r.upto(31); case 1: return 1 + r.upto(100); case 2: return 0x7fffffff - r.upto(4); case 3: return (1 << 30) + 1 + r.upto(1 << 29); default: { int v = r.i32() & 0x7fffffff; return v ? v : 1; } }
}
static void bad(Ctx &c, Random &x, int w, int v) {
    Str ex = w ? thrown([&]() { x.nextInt(-v); }) : thrown([&]() { x.nextString(-1 - v); });
    c.eq(ex, w ? Str("InterruptedException") : Str("IllegalArgumentException"), "Random.bad-argument");
}
struct Pair { Random *x; Gen m; };
WORKLOAD(sequence, 30000, 1000000) {
    std::vector<Pair> ps;
    struct Free { std::vector<Pair> &v; ~Free() { for (Pair &p : v) delete p.x; } } fr{ps};
    int64_t seed = c.r.i64();
    OP("Random", (long) seed);
    ps.push_back({new Random((long) seed), Gen(seed)});
    int steps = 5 + c.r.upto(30);
    for (int s = 0; s < steps; ++s) {
        Pair &p = ps[(size_t) c.r.upto((int) ps.size())];
        switch (c.r.upto(14)) {
            case 0: OP("nextInt"); c.eq(p.x->nextInt(), p.m.i32(), "Random.nextInt"); break;
            case 1: case 2: case 3: { int n = bound(c.r); OP("nextInt", n); int g = p.x->nextInt(n); c.check(g >= 0 && g < n, "Random.nextInt-bound", show(g) + " for bound " + show(n)); uint64_t before = p.m.s; c.eq(g, p.m.below(n), "Random.nextInt(bound)"); if (n & (n - 1)) { Gen t; t.s = before; t.raw(31); if (t.s != p.m.s) c.ev("rejected_draws"); } else c.ev("power_of_two_bounds"); break; }
            case 4: OP("nextLong"); c.eq(p.x->nextLong(), (long) p.m.i64(), "Random.nextLong"); break;
            case 5: OP("nextBoolean"); c.eq((bool) p.x->nextBoolean(), p.m.b(), "Random.nextBoolean"); break;
            case 6: { OP("nextFloat"); float g = p.x->nextFloat(); c.check(g >= 0 && g < 1, "Random.nextFloat-range", show((double) g)); c.eq(g, p.m.f(), "Random.nextFloat"); break; }
            case 7: { OP("nextDouble"); double g = p.x->nextDouble(); c.check(g >= 0 && g < 1, "Random.nextDouble-range", show(g)); c.eq(g, p.m.d(), "Random.nextDouble"); break; }
            case 8: { OP("nextGaussian"); if (p.m.have) c.ev("spare_gaussians"); close(c, p.x->nextGaussian(), p.m.g(), "Random.nextGaussian"); break; }
            case 9: {
                int n = c.r.upto(c.r.chance(90) ? 20 : 600); OP("nextBytes", n);
                Array<byte> a(n);
                for (int i = 0; i < n; ++i) a[i] = 7;
                p.x->nextBytes(&a);
                c.eq(a.length, n, "Random.nextBytes-length");
                Str g; for (int i = 0; i < n; ++i) g += (char) a[i];
                c.eq(g, p.m.bytes(n), "Random.nextBytes");
                if (n % 4) c.ev("partial_words");
                break;
            }
            case 10: { int n = c.r.size(60); OP("nextString", n); c.eq(N(p.x->nextString(n)), p.m.str(n), "Random.nextString"); break; }
            case 11: { seed = c.r.i64(); OP("setSeed", (long) seed); if (p.m.have) c.ev("spares_discarded"); p.x->setSeed((long) seed); p.m.set(seed); break; }
            case 12: { int w = c.r.upto(2), v = c.r.upto(50); OP("bad", w, v); bad(c, *p.x, w, v); c.ev("bad_arguments"); break; }
            default: if (ps.size() < 3) { OP("copy"); if (p.m.have) c.ev("copies_with_spare"); Pair q{new Random(*p.x), p.m}; ps.push_back(q); }
        }
    }
    for (Pair &p : ps) { OP("final"); c.eq(p.x->nextInt(), p.m.i32(), "Random.nextInt"); }
}
// one generator shared by several threads: together they draw exactly the sequence, nothing twice and nothing skipped
WORKLOAD(shared, 400, 8000) {
    int n = 2 + c.r.upto(5), each = 20 + c.r.upto(60), w = c.r.upto(3);
    int64_t seed = c.r.i64();
    OP("shared", n, each, w, (long) seed);
    Random x((long) seed); Gen m(seed);
    std::vector<std::vector<double>> per((size_t) n);
    mon::parallel(c, n, [&](int i, Rng &) {
        for (int k = 0; k < each; ++k) per[(size_t) i].push_back(w == 0 ? (double) x.nextInt() : w == 1 ? (double) x.nextInt(1 << 20) : x.nextGaussian());
    }, 10);
    std::vector<double> got, want;
    for (auto &v : per) got.insert(got.end(), v.begin(), v.end());
    for (int k = 0; k < n * each; ++k) want.push_back(w == 0 ? (double) m.i32() : w == 1 ? (double) m.below(1 << 20) : m.g());
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    c.eq(got.size(), want.size(), "Random.shared-count");
    for (size_t k = 0; k < got.size(); ++k) close(c, got[k], want[k], "Random.shared-sequence");
    c.eq(x.nextInt(), m.i32(), "Random.shared-state");
    c.ev(w == 2 ? "shared_gaussians" : "shared_draws", n * each);
}
// reseeding while others draw: every draw after the last reseed belongs to a sequence of one of the seeds
WORKLOAD(reseed, 200, 3000) {
    int n = 2 + c.r.upto(3);
    int64_t seed = c.r.i64();
    OP("reseed", n, (long) seed);
    Random x(1);
    std::atomic<int> outside{0};
    mon::parallel(c, n, [&](int i, Rng &r) { for (int k = 0; k < 30; ++k) { if (i == 0 && r.chance(30)) x.setSeed((long) seed); else if (r.chance(50)) x.nextGaussian(); else { int v = x.nextInt(10); if (v < 0 || v >= 10) outside++; } } }, 10);
    c.eq(outside.load(), 0, "Random.nextInt-bound");
    x.setSeed((long) seed);
    Gen m(seed);
    close(c, x.nextGaussian(), m.g(), "Random.nextGaussian-after-setSeed");
    c.eq(x.nextLong(), (long) m.i64(), "Random.nextLong-after-setSeed");
    c.ev("reseeds");
}
WORKLOAD(distinct, 200, 3000) {
    int n = 1 + c.r.upto(6);
    OP("distinct", n);
    std::vector<std::vector<std::pair<long, long>>> per((size_t) n);
    auto make = [&](int i) { for (int k = 0; k < 40; ++k) { Random x; long a = x.nextLong(); long b = x.nextLong(); per[(size_t) i].push_back({a, b}); } };
    if (n == 1) make(0); else mon::parallel(c, n, [&](int i, Rng &) { make(i); }, 10);
    std::set<std::pair<long, long>> seen;
    for (auto &v : per) for (auto &q : v) c.check(seen.insert(q).second, "Random.same-default-seed", "two Random() objects produce the same sequence");
    c.ev("default_seeds", n * 40);
}
MON_MAIN
