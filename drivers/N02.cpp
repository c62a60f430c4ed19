// N02: bit functions against a bit-by-bit definition over a 64-bit vector.
#include "lib.hpp"
using mon::Ctx;
static std::vector<int> bits(uint64_t v, int w) { std::vector<int> b(w); for (int i = 0; i < w; ++i) b[i] = (v >> i) & 1; return b; }
static uint64_t val(const std::vector<int> &b) { uint64_t v = 0; for (size_t i = 0; i < b.size(); ++i) if (b[i]) v |= 1ULL << i; return v; }
struct Ref { int count, hi, lo; uint64_t rev, revB; std::vector<int> b; };
static Ref ref(uint64_t v, int w) {
    Ref r;
    r.b = bits(v, w); r.count = 0; r.hi = -1; r.lo = -1;
    std::vector<int> q(w), p(w);
    for (int i = 0; i < w; ++i) {
        r.count += r.b[i];
        if (r.b[i]) { r.hi = i; if (r.lo < 0) r.lo = i; }
        q[w - 1 - i] = r.b[i];
        p[(w / 8 - 1 - i / 8) * 8 + i % 8] = r.b[i];
    }
    r.rev = val(q); r.revB = val(p);
    return r;
}
static uint64_t rot(const std::vector<int> &b, long left) {
    long w = (long) b.size();
    std::vector<int> q(w);
    for (long i = 0; i < w; ++i) q[(((i + left) % w) + w) % w] = b[i];
    return val(q);
}
static int dist(Ctx &c) {
    switch (c.r.upto(4)) {
        case 0: return (int) c.r.range(0, 31);
        case 1: return (int) c.r.range(-130, 130);
        case 2: return c.r.pick(std::vector<int>{0, 31, 32, 33, 63, 64, 65, -1, -31, -32, -33, -63, -64, -65, 128, INT32_MAX, INT32_MIN, INT32_MIN + 1});
        default: return c.r.i32();
    }
}
static void intCase(Ctx &c, int32_t v) {
    Ref r = ref((uint32_t) v, 32);
    OP("Integer.bits", (int) v);
    c.eq(Integer::bitCount(v), r.count, "Integer.bitCount");
    c.eq(Integer::highestOneBit(v), (int) (r.hi < 0 ? 0 : (int32_t) (1u << r.hi)), "Integer.highestOneBit");
    c.eq(Integer::lowestOneBit(v), (int) (r.lo < 0 ? 0 : (int32_t) (1u << r.lo)), "Integer.lowestOneBit");
    c.eq(Integer::numberOfLeadingZeros(v), 31 - r.hi, "Integer.numberOfLeadingZeros");
    c.eq(Integer::numberOfTrailingZeros(v), r.lo < 0 ? 32 : r.lo, "Integer.numberOfTrailingZeros");
    c.eq(Integer::reverse(v), (int) (int32_t) r.rev, "Integer.reverse");
    c.eq(Integer::reverseBytes(v), (int) (int32_t) r.revB, "Integer.reverseBytes");
    c.eq(Integer::signum(v), (v > 0) - (v < 0), "Integer.signum");
    for (int k = 0; k < 3; ++k) {
        int d = dist(c);
        OP("Integer.rotate", d);
        long m = ((long) d % 32 + 32) % 32;
        c.eq(Integer::rotateLeft(v, d), (int) (int32_t) rot(r.b, m), "Integer.rotateLeft");
        c.eq(Integer::rotateRight(v, d), (int) (int32_t) rot(r.b, -m), "Integer.rotateRight");
    }
}
static void longCase(Ctx &c, int64_t v) {
    Ref r = ref((uint64_t) v, 64);
    OP("Long.bits", (long) v);
    c.eq(Long::bitCount(v), r.count, "Long.bitCount");
    c.eq(Long::highestOneBit(v), (long) (r.hi < 0 ? 0 : (int64_t) (1ULL << r.hi)), "Long.highestOneBit");
    c.eq(Long::lowestOneBit(v), (long) (r.lo < 0 ? 0 : (int64_t) (1ULL << r.lo)), "Long.lowestOneBit");
    c.eq(Long::numberOfLeadingZeros(v), 63 - r.hi, "Long.numberOfLeadingZeros");
    c.eq(Long::numberOfTrailingZeros(v), r.lo < 0 ? 64 : r.lo, "Long.numberOfTrailingZeros");
    c.eq(Long::reverse(v), (long) r.rev, "Long.reverse");
    c.eq(Long::reverseBytes(v), (long) r.revB, "Long.reverseBytes");
    c.eq(Long::signum(v), (v > 0) - (v < 0), "Long.signum");
    for (int k = 0; k < 3; ++k) {
        int d = dist(c);
        OP("Long.rotate", d);
        long m = ((long) d % 64 + 64) % 64;
        c.eq(Long::rotateLeft(v, d), (long) rot(r.b, m), "Long.rotateLeft");
        c.eq(Long::rotateRight(v, d), (long) rot(r.b, -m), "Long.rotateRight");
    }
}
// every single-bit and two-bit pattern, runs of ones, and their complements
WORKLOAD(int_patterns, 528 * 2, 528 * 2) {
    int k = (int) c.idx / 2, a = 0;
    while (k >= 32 - a) { k -= 32 - a; ++a; }
    int b = a + k;
    uint32_t two = (1u << a) | (1u << b), run = (b == 31 ? ~0u : (1u << (b + 1)) - 1) & ~((1u << a) - 1);
    uint32_t x = c.idx % 2 ? run : two;
    intCase(c, (int32_t) x); intCase(c, (int32_t) ~x);
}
WORKLOAD(long_patterns, 2080 * 2, 2080 * 2) {
    int k = (int) c.idx / 2, a = 0;
    while (k >= 64 - a) { k -= 64 - a; ++a; }
    int b = a + k;
    uint64_t two = (1ULL << a) | (1ULL << b), run = (b == 63 ? ~0ULL : (1ULL << (b + 1)) - 1) & ~((1ULL << a) - 1);
    uint64_t x = c.idx % 2 ? run : two;
    longCase(c, (int64_t) x); longCase(c, (int64_t) ~x);
}
WORKLOAD(int_random, 20000, 1500000) { for (int k = 0; k < 3; ++k) intCase(c, c.r.i32()); }
WORKLOAD(long_random, 20000, 1500000) { for (int k = 0; k < 3; ++k) longCase(c, c.r.i64()); }
MON_MAIN
