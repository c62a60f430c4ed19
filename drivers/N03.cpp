// N03: wrapper objects against primitive wrap-around arithmetic, over update histories.
#include "lib.hpp"
using mon::Ctx;
template<class O> static Str streamed(const O &o) { std::ostringstream os; os << "<" << o << ">"; return os.str(); }

static void checkInt(Ctx &c, Integer &o, int v) {
    Str t = std::to_string(v);
    c.eq(o.intValue(), v, "Integer.intValue");
    c.eq(N(o.toString()), t, "Integer.toString");
    c.eq(Str(o.stringValue()), t, "Integer.stringValue");
    c.eq(o.longValue(), (long) v, "Integer.longValue");
    c.eq((int) o.shortValue(), (int) (short) v, "Integer.shortValue");
    c.eq((int) (byte) o.byteValue(), (int) (byte) v, "Integer.byteValue");
    c.eq(o.floatValue(), (float) v, "Integer.floatValue");
    c.eq(o.doubleValue(), (double) v, "Integer.doubleValue");
    c.eq(o.charValue(), t[0], "Integer.charValue");
    c.eq(o.hashCode(), v, "Integer.hashCode");
    c.eq(streamed(o), "<" + t + ">", "Integer.ostream");
}
static void checkLong(Ctx &c, Long &o, long v) {
    Str t = std::to_string(v);
    c.eq(o.longValue(), v, "Long.longValue");
    c.eq(N(o.toString()), t, "Long.toString");
    c.eq(o.intValue(), (int) v, "Long.intValue");
    c.eq((int) o.shortValue(), (int) (short) v, "Long.shortValue");
    c.eq(o.byteValue(), (int) (signed char) v, "Long.byteValue");
    c.eq(o.floatValue(), (float) v, "Long.floatValue");
    c.eq(o.doubleValue(), (double) v, "Long.doubleValue");
    c.eq(o.hashCode(), (int) ((uint64_t) v ^ ((uint64_t) v >> 32)), "Long.hashCode");
    c.eq(streamed(o), "<" + t + ">", "Long.ostream");
}
static void checkShort(Ctx &c, Short &o, short v) {
    Str t = std::to_string(v);
    c.eq(o.intValue(), (int) v, "Short.intValue");
    c.eq((int) o.shortValue(), (int) v, "Short.shortValue");
    c.eq(o.longValue(), (long) v, "Short.longValue");
    c.eq(N(o.toString()), t, "Short.toString");
    c.eq(o.floatValue(), (float) v, "Short.floatValue");
    c.eq(o.doubleValue(), (double) v, "Short.doubleValue");
    c.eq(o.charValue(), t[0], "Short.charValue");
    c.eq(streamed(o), "<" + t + ">", "Short.ostream");
}
template<class O, class P> static void relations(Ctx &c, O &a, P x, O &b, P y, const char *T) {
    Str t = T;
    c.eq(a == b, x == y, t + "==");
    c.eq(a != b, x != y, t + "!=");
    c.eq(a < b, x < y, t + "<");
    c.eq(a > b, x > y, t + ">");
    c.eq(a <= b, x <= y, t + "<=");
    c.eq(a >= b, x >= y, t + ">=");
    if (x == y) c.eq(std::hash<O>()(a), std::hash<O>()(b), t + ".std-hash");
}
template<class F> static bool divides(Ctx &c, bool zero, const char *key, F f) {
    Str ex = thrown(f);
    if (zero) { c.ev("zero_divisors"); c.check(ex == "ArithmeticException", Str(key) + "-by-zero", ex == "" ? "returned" : "threw " + ex); return false; }
    c.check(ex == "", Str(key) + "-throws", "threw " + ex);
    return true;
}
// pairs that two independent draws rarely give: the smallest value over -1, equal, opposite and neighbouring values
template<class T> static void related(Ctx &c, T &x, T &y) {
    if (!c.r.chance(30)) return;
    switch (c.r.upto(5)) {
        case 0: x = std::numeric_limits<T>::min(); y = -1; c.ev("smallest_over_minus_one"); break;
        case 1: y = x; break;
        case 2: y = (T) (0 - (typename std::make_unsigned<T>::type) x); break;
        case 3: y = (T) ((typename std::make_unsigned<T>::type) x + 1); break;
        default: y = (T) ((typename std::make_unsigned<T>::type) x * 3 - 1); break;
    }
}
static int32_t wi(int64_t v) { return (int32_t) (uint32_t) (uint64_t) v; }

WORKLOAD(integers, 9000, 300000) {
    int v[3] = {c.r.i32(), c.r.chance(20) ? 0 : c.r.i32(), 0};
    related(c, v[0], v[1]);
    Integer o[3] = {Integer(v[0]), Integer(v[1]), Integer()};
    OP("Integer.new", v[0], v[1]);
    int steps = 2 + c.r.upto(14);
    for (int k = 0; k < steps; ++k) {
        int a = c.r.upto(3), b = c.r.upto(3), d = c.r.upto(3);
        int64_t x = v[a], y = v[b];
        int op = c.r.upto(18);
        OP("Integer.op" + std::to_string(op), a, b, d);
        switch (op) {
            case 0: o[d] = o[a] + o[b]; v[d] = wi(x + y); break;
            case 1: o[d] = o[a] - o[b]; v[d] = wi(x - y); break;
            case 2: o[d] = o[a] * o[b]; v[d] = wi(x * y); break;
            case 3: if (divides(c, y == 0, "Integer/", [&]() { o[d] = o[a] / o[b]; })) v[d] = wi(x / y); break;
            case 4: if (divides(c, y == 0, "Integer%", [&]() { o[d] = o[a] % o[b]; })) v[d] = wi(x % y); break;
            case 5: { Integer &r = (o[a] += o[b]); v[a] = wi(x + y); c.check(&r == &o[a], "Integer+=.ref", "returned another object"); break; }
            case 6: { Integer &r = (o[a] -= o[b]); v[a] = wi(x - y); c.check(&r == &o[a], "Integer-=.ref", "returned another object"); break; }
            case 7: { Integer &r = (o[a] *= o[b]); v[a] = wi(x * y); c.check(&r == &o[a], "Integer*=.ref", "returned another object"); break; }
            case 8: if (divides(c, y == 0, "Integer/=", [&]() { o[a] /= o[b]; })) v[a] = wi(x / y); break;
            case 9: if (divides(c, y == 0, "Integer%=", [&]() { o[a] %= o[b]; })) v[a] = wi(x % y); break;
            case 10: o[d] = o[a]; v[d] = v[a]; break;
            case 11: { Integer t(o[a]); o[d] = t; v[d] = v[a]; t += Integer(1); break; }
            case 12: { int n = c.r.i32(); o[d] = Integer(n); v[d] = n; break; }
            case 13: { int n = c.r.i32(); o[d] = n; v[d] = n; break; }
            case 14: { Integer t = Integer::valueOf(v[a]); checkInt(c, t, v[a]); break; }
            case 15: if (divides(c, v[b] == 0, "Integer.divideUnsigned", [&]() { v[d] = Integer::divideUnsigned(v[a], v[b]) ; }))
                         { int want = (int) ((uint32_t) x / (uint32_t) y); c.eq(v[d], want, "Integer.divideUnsigned"); o[d] = Integer(v[d]); } break;
            case 16: if (divides(c, v[b] == 0, "Integer.remainderUnsigned", [&]() { v[d] = Integer::remainderUnsigned(v[a], v[b]) ; }))
                         { int want = (int) ((uint32_t) x % (uint32_t) y); c.eq(v[d], want, "Integer.remainderUnsigned"); o[d] = Integer(v[d]); } break;
            default: {
                c.eq(Integer::compare(v[a], v[b]), (x > y) - (x < y), "Integer.compare");
                c.eq(Integer::compareUnsigned(v[a], v[b]), ((uint32_t) x > (uint32_t) y) - ((uint32_t) x < (uint32_t) y), "Integer.compareUnsigned");
                c.eq(Integer::max(v[a], v[b]), std::max(v[a], v[b]), "Integer.max");
                c.eq(Integer::min(v[a], v[b]), std::min(v[a], v[b]), "Integer.min");
                c.eq(Integer::sum(v[a], v[b]), (int) wi(x + y), "Integer.sum");
                c.eq(Integer::hashCode(v[a]), v[a], "Integer.hashCode(int)");
            }
        }
        for (int i = 0; i < 3; ++i) checkInt(c, o[i], v[i]);
        a = c.r.upto(3); b = c.r.upto(3);
        relations(c, o[a], v[a], o[b], v[b], "Integer");
        c.eq(o[a].compareTo(o[b]), (v[a] > v[b]) - (v[a] < v[b]), "Integer.compareTo");
        c.eq(o[a].equals(o[b]), v[a] == v[b], "Integer.equals");
    }
}

WORKLOAD(longs, 9000, 300000) {
    int64_t v[3] = {c.r.i64(), c.r.chance(20) ? 0 : c.r.i64(), 0};
    related(c, v[0], v[1]);
    Long o[3] = {Long(v[0]), Long(v[1]), Long()};
    OP("Long.new", (long) v[0], (long) v[1]);
    int steps = 2 + c.r.upto(14);
    for (int k = 0; k < steps; ++k) {
        int a = c.r.upto(3), b = c.r.upto(3), d = c.r.upto(3);
        __int128 x = v[a], y = v[b];
        auto w = [](__int128 n) { return (int64_t) (uint64_t) (unsigned __int128) n; };
        int op = c.r.upto(16);
        OP("Long.op" + std::to_string(op), a, b, d);
        switch (op) {
            case 0: o[d] = o[a] + o[b]; v[d] = w(x + y); break;
            case 1: o[d] = o[a] - o[b]; v[d] = w(x - y); break;
            case 2: o[d] = o[a] * o[b]; v[d] = w(x * y); break;
            case 3: if (divides(c, y == 0, "Long/", [&]() { o[d] = o[a] / o[b]; })) v[d] = w(x / y); break;
            case 4: if (divides(c, y == 0, "Long%", [&]() { o[d] = o[a] % o[b]; })) v[d] = w(x % y); break;
            case 5: o[a] += o[b]; v[a] = w(x + y); break;
            case 6: o[a] -= o[b]; v[a] = w(x - y); break;
            case 7: o[a] *= o[b]; v[a] = w(x * y); break;
            case 8: if (divides(c, y == 0, "Long/=", [&]() { o[a] /= o[b]; })) v[a] = w(x / y); break;
            case 9: if (divides(c, y == 0, "Long%=", [&]() { o[a] %= o[b]; })) v[a] = w(x % y); break;
            case 10: o[d] = o[a]; v[d] = v[a]; break;
            case 11: { Long t(o[a]); o[d] = t; v[d] = v[a]; t += Long(1L); break; }
            case 12: { int64_t n = c.r.i64(); o[d] = Long(n); v[d] = n; break; }
            case 13: { int64_t n = c.r.i64(); o[d] = (long) n; v[d] = n; break; }
            case 14: { Long t = Long::valueOf((long) v[a]); checkLong(c, t, v[a]); break; }
            default: c.eq(Long::compare(v[a], v[b]), (x > y) - (x < y), "Long.compare");
        }
        for (int i = 0; i < 3; ++i) checkLong(c, o[i], v[i]);
        a = c.r.upto(3); b = c.r.upto(3);
        relations(c, o[a], v[a], o[b], v[b], "Long");
        c.eq(o[a].compareTo(o[b]), (v[a] > v[b]) - (v[a] < v[b]), "Long.compareTo");
        c.eq(o[a].equals(o[b]), v[a] == v[b], "Long.equals");
    }
}

WORKLOAD(shorts, 6000, 200000) {
    short v[3] = {(short) c.r.i32(), (short) (c.r.chance(20) ? 0 : c.r.i32()), 0};
    Short o[3] = {Short(v[0]), Short(v[1]), Short()};
    OP("Short.new", v[0], v[1]);
    int steps = 2 + c.r.upto(14);
    for (int k = 0; k < steps; ++k) {
        int a = c.r.upto(3), b = c.r.upto(3), d = c.r.upto(3);
        int x = v[a], y = v[b];
        int op = c.r.upto(9);
        OP("Short.op" + std::to_string(op), a, b, d);
        switch (op) {
            case 0: o[d] = o[a] + o[b]; v[d] = (short) (x + y); break;
            case 1: o[d] = o[a] - o[b]; v[d] = (short) (x - y); break;
            case 2: o[d] = o[a] * o[b]; v[d] = (short) (unsigned) ((long) x * y); break;
            case 3: if (divides(c, y == 0, "Short/", [&]() { o[d] = o[a] / o[b]; })) v[d] = (short) (x / y); break;
            case 4: if (divides(c, y == 0, "Short%", [&]() { o[d] = o[a] % o[b]; })) v[d] = (short) (x % y); break;
            case 5: o[d] = o[a]; v[d] = v[a]; break;
            case 6: { Short t(o[a]); o[d] = t; v[d] = v[a]; break; }
            default: { short n = (short) c.r.i32(); o[d] = Short(n); v[d] = n; break; }
        }
        for (int i = 0; i < 3; ++i) checkShort(c, o[i], v[i]);
        a = c.r.upto(3); b = c.r.upto(3);
        relations(c, o[a], v[a], o[b], v[b], "Short");
    }
}
WORKLOAD(constants, 4, 4) {
    OP("constants");
    volatile long v[] = {Integer::MAX_VALUE, Integer::MIN_VALUE, Integer::SIZE, Integer::BYTES, Long::SIZE};
    const long w[] = {2147483647L, -2147483648L, 32, 4, 64};
    for (int i = 0; i < 5; ++i) c.eq((long) v[i], w[i], "constant" + show(i));
    volatile long hi = Long::MAX_VALUE, lo = Long::MIN_VALUE;
    c.eq((long) hi, (long) INT64_MAX, "Long.MAX_VALUE"); c.eq((long) lo, (long) INT64_MIN, "Long.MIN_VALUE");
}
MON_MAIN
