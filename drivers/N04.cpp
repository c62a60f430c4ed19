// N04: Float and Double against the primitive types: value histories, ordering,
// bit codes and parsing.
#include "lib.hpp"
#include <cfloat>
#include <limits>
using mon::Ctx;

template<class P> struct Tr;
template<> struct Tr<float> {
    typedef Java::Lang::Float O; typedef uint32_t B; typedef int32_t C; typedef int H;
    static const char *name() { return "Float"; }
    static Str text(float v) { char b[512]; snprintf(b, sizeof b, "%g", (double) v); return b; }
    static C code(float v) { return O::floatToIntBits(v); }
    static C raw(float v) { return O::floatToRawIntBits(v); }
    static H hash(C c) { return c; }
    static float parse(const Str &s) { return O::parseFloat(J(s)).floatValue(); }
    static float strto(const char *s, char **e) { return strtof(s, e); }
    static float val(O &o) { return o.floatValue(); }
    static C topCode() { return 0x7fffffff; }
};
template<> struct Tr<double> {
    typedef Java::Lang::Double O; typedef uint64_t B; typedef int64_t C; typedef long H;
    static const char *name() { return "Double"; }
    static Str text(double v) { char b[1200]; snprintf(b, sizeof b, "%.15f", v); return b; }
    static C code(double v) { return O::doubleToLongBits(v); }
    static C raw(double v) { return O::doubleToRawLongBits(v); }
    static H hash(C c) { return c ^ (c >> 32); }
    static double parse(const Str &s) { return O::parseDouble(J(s)).doubleValue(); }
    static double strto(const char *s, char **e) { return strtod(s, e); }
    static double val(O &o) { return o.doubleValue(); }
    static C topCode() { return INT64_MAX; }
};

template<class P> static P fromBits(typename Tr<P>::B b) { P v; memcpy(&v, &b, sizeof v); return v; }
template<class P> static typename Tr<P>::B toBits(P v) { typename Tr<P>::B b; memcpy(&b, &v, sizeof b); return b; }
template<class P> static bool same(P a, P b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
template<class P> static void eqv(Ctx &c, P a, P b, const Str &key) { c.check(same(a, b), key, "got " + show(a) + " expected " + show(b)); }

template<class P> static P gen(mon::Rng &r) {
    typedef std::numeric_limits<P> L;
    static const std::vector<P> sp = {(P) 0, (P) -0.0, 1, -1, (P) 0.5, (P) -0.5, (P) 0.1, (P) 1.5, (P) 2.5, L::infinity(), -L::infinity(),
        L::quiet_NaN(), L::max(), -L::max(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), (P) (L::min() - L::denorm_min()),
        (P) 2147483647.0, (P) 2147483648.0, (P) -2147483648.0, (P) 2147483649.0, (P) 9223372036854775807.0, (P) -9223372036854775808.0,
        (P) 4294967296.0, (P) 1e15, (P) 1e16, (P) 16777216.0, (P) 16777217.0, (P) 9007199254740993.0, (P) 99999.95, (P) 999999.5, (P) 1e-5, (P) 127.5, (P) -128.5, (P) 32767.9};
    switch (r.upto(7)) {
        case 0: case 1: return r.pick(sp);
        case 2: return fromBits<P>((typename Tr<P>::B) r.u64());
        case 3: return (P) r.i32();
        case 4: return (P) r.range(-100000, 100000) / (P) 1000;
        case 5: return std::ldexp((P) (r.u64() >> 12) / (P) 4503599627370496.0 + 1, (int) r.range(-160, 160)) * (r.chance(50) ? 1 : -1);
        default: return std::nextafter(r.pick(sp), r.chance(50) ? L::infinity() : -L::infinity());
    }
}
// sign-magnitude code of a value: the convention this library documents by its tests
template<class P> static typename Tr<P>::C code(P v) {
    if (v != v) return Tr<P>::topCode();
    if (v == 0) return 0;
    typedef typename Tr<P>::B B;
    B b = toBits<P>(v);
    B mag = b & ~((B) 1 << (8 * sizeof(B) - 1));
    return v < 0 ? -(typename Tr<P>::C) mag : (typename Tr<P>::C) mag;
}
static int rel(double x, double y) {            // total order: NaN greatest, both zeros equal
    if (x != x || y != y) return (x != x) - (y != y);
    return x < y ? -1 : x > y;
}

template<class P> static void checkValue(Ctx &c, typename Tr<P>::O &o, P v) {
    Str T = Tr<P>::name();
    eqv<P>(c, Tr<P>::val(o), v, T + ".value");
    if (v == v) c.eq(N(o.toString()), Tr<P>::text(v), T + ".toString");
    eqv<float>(c, o.floatValue(), (float) v, T + ".floatValue");
    eqv<double>(c, o.doubleValue(), (double) v, T + ".doubleValue");
    if (std::fabs(v) < 2147483648.0) c.eq(o.intValue(), (int) v, T + ".intValue"), c.ev("narrowed");
    if (std::fabs(v) < 9223372036854775808.0) c.eq(o.longValue(), (long) v, T + ".longValue");
    if (std::fabs(v) < 32768) c.eq((int) o.shortValue(), (int) v, T + ".shortValue");
    if (v > -1 && v < 128) c.eq((int) o.byteValue(), (int) v, T + ".byteValue");
    c.eq((bool) o.isNaN(), std::isnan(v), T + ".isNaN");
    c.eq((bool) o.isInfinite(), std::isinf(v), T + ".isInfinite");
    c.eq(o.hashCode(), Tr<P>::hash(code<P>(v)), T + ".hashCode");
}

template<class P> static void history(Ctx &c) {
    typedef typename Tr<P>::O O;
    Str T = Tr<P>::name();
    P v[3] = {gen<P>(c.r), gen<P>(c.r), 0};
    O o[3] = {O(v[0]), O(v[1]), O()};
    c.op(T + ".new" + args(v[0], v[1]));
    int steps = 2 + c.r.upto(12);
    for (int k = 0; k < steps; ++k) {
        int a = c.r.upto(3), b = c.r.upto(3), d = c.r.upto(3), op = c.r.upto(13);
        P x = v[a], y = v[b];
        c.op(T + ".op" + std::to_string(op) + args(a, b, d));
        switch (op) {
            case 0: o[d] = o[a] + o[b]; v[d] = x + y; break;
            case 1: o[d] = o[a] - o[b]; v[d] = x - y; break;
            case 2: o[d] = o[a] * o[b]; v[d] = x * y; break;
            case 3: o[d] = o[a] / o[b]; v[d] = x / y; break;
            case 4: { O &r = (o[a] += o[b]); v[a] = x + y; c.check(&r == &o[a], T + "+=.ref", "returned another object"); break; }
            case 5: { O &r = (o[a] -= o[b]); v[a] = x - y; c.check(&r == &o[a], T + "-=.ref", "returned another object"); break; }
            case 6: { O &r = (o[a] *= o[b]); v[a] = x * y; c.check(&r == &o[a], T + "*=.ref", "returned another object"); break; }
            case 7: { O &r = (o[a] /= o[b]); v[a] = x / y; c.check(&r == &o[a], T + "/=.ref", "returned another object"); break; }
            case 8: o[d] = o[a]; v[d] = x; break;
            case 9: { O cp(o[a]); cp += o[b]; checkValue<P>(c, cp, (P) (x + y)); break; }
            case 10: { P n = gen<P>(c.r); c.op(T + ".set" + args(n)); o[d] = n; v[d] = n; break; }
            case 11: { P n = gen<P>(c.r); c.op(T + ".valueOf" + args(n)); o[d] = O::valueOf(n); v[d] = n; break; }
            default: { O t; checkValue<P>(c, t, (P) 0); break; }
        }
        for (int i = 0; i < 3; ++i) checkValue<P>(c, o[i], v[i]);
        x = v[a]; y = v[b];
        int q = rel(x, y);
        c.eq(o[a] == o[b], q == 0, T + "=="); c.eq(o[a] != o[b], q != 0, T + "!=");
        c.eq(o[a] < o[b], q < 0, T + "<"); c.eq(o[a] > o[b], q > 0, T + ">");
        c.eq(o[a] <= o[b], q <= 0, T + "<="); c.eq(o[a] >= o[b], q >= 0, T + ">=");
        c.eq((bool) o[a].equals(o[b]), q == 0, T + ".equals");
        c.eq(o[a].compareTo(o[b]), q, T + ".compareTo");
        c.eq(o[a] && o[b], x != 0 && y != 0, T + "&&"); c.eq(o[a] || o[b], x != 0 || y != 0, T + "||");
        if (q == 0) {
            c.eq(o[a].hashCode(), o[b].hashCode(), T + ".hashCode-of-equals");
            c.eq(std::hash<O>()(o[a]), std::hash<O>()(o[b]), T + ".std-hash-of-equals");
            if (a != b) c.ev("equal_pairs");
        }
        if (x != x || y != y) c.ev("nan_comparisons");
    }
}
WORKLOAD(float_history, 8000, 200000) { history<float>(c); }
WORKLOAD(double_history, 5000, 120000) { history<double>(c); }

template<class P> static void statics(Ctx &c) {
    typedef typename Tr<P>::O O;
    Str T = Tr<P>::name();
    for (int k = 0; k < 6; ++k) {
        P x = gen<P>(c.r), y = c.r.chance(15) ? x : c.r.chance(10) ? -x : gen<P>(c.r), z = gen<P>(c.r);
        c.op(T + ".statics" + args(x, y));
        c.eq(O::compare(x, y), rel(x, y), T + ".compare");
        if (O::compare(x, y) <= 0 && O::compare(y, z) <= 0) c.check(O::compare(x, z) <= 0, T + ".compare-transitive", show(x) + " " + show(y) + " " + show(z));
        c.eq((bool) O::isNaN(x), std::isnan(x), T + ".isNaN(v)");
        c.eq((bool) O::isInfinite(x), std::isinf(x), T + ".isInfinite(v)");
        c.eq((bool) O::isFinite(x), std::isfinite(x), T + ".isFinite(v)");
        c.eq(O::hashCode(x), Tr<P>::hash(code<P>(x)), T + ".hashCode(v)");
        c.eq((long) Tr<P>::code(x), (long) code<P>(x), T + ".bits");
        c.eq((long) Tr<P>::raw(x), (long) code<P>(x), T + ".rawBits");
        if (x == x && y == y && x != y) { P m = O::min(x, y); eqv<P>(c, m, x < y ? x : y, T + ".min"); }
        if (std::fpclassify(x) == FP_SUBNORMAL) c.ev("subnormals");
    }
}
WORKLOAD(float_statics, 8000, 200000) { statics<float>(c); }
WORKLOAD(double_statics, 6000, 150000) { statics<double>(c); }

WORKLOAD(bits_back, 12000, 300000) {
    // codes back to values
    for (int k = 0; k < 5; ++k) {
        double x = gen<double>(c.r);
        long cd = Double::doubleToLongBits(x);
        OP("Double.longBitsToDouble", cd);
        double y = Double::longBitsToDouble(cd);
        c.check(Double::compare(x, y) == 0 && (x == y || x != x), "Double.bits-round-trip", show(x) + " -> " + show(cd) + " -> " + show(y));
        long b = c.r.i64();
        if (c.r.chance(30)) b = (long) (0x7ff0000000000000ULL + (uint64_t) c.r.range(-3, 3)) * (c.r.chance(50) ? 1 : -1);
        OP("Double.longBitsToDouble", b);
        if (b != INT64_MIN) {
            double e = b >= 0 ? fromBits<double>((uint64_t) b) : -fromBits<double>((uint64_t) -b);
            double g = Double::longBitsToDouble(b);
            c.check(e != e ? g != g : g == e, "Double.longBitsToDouble", show(b) + " -> " + show(g) + " expected " + show(e));
        } else Double::longBitsToDouble(b);
        int i = c.r.i32();
        OP("Float.intBitsToFloat", i);
        float ef = fromBits<float>((uint32_t) i), gf = Float::intBitsToFloat(i);
        c.check(same(ef, gf), "Float.intBitsToFloat", show(i) + " -> " + show(gf));
        float f = std::fabs(gen<float>(c.r));
        if (f == f) { float back = Float::intBitsToFloat(Float::floatToIntBits(f)); c.check(back == f, "Float.bits-round-trip", show(f) + " -> " + show(back)); }
    }
}

static Str number(mon::Rng &r) {
    char b[512];
    switch (r.upto(7)) {
        case 5: {           // next to the midpoint of two floats (or doubles), where rounding twice shows
            if (r.chance(60)) {
                float f = gen<float>(r);
                if (!(std::fabs(f) < 1e15f) || f == 0) f = (float) r.range(1, 999999) / 1024;
                double m = ((double) f + (double) std::nextafterf(f, INFINITY)) / 2;
                snprintf(b, sizeof b, "%.*f", 160, m);          // exact: the midpoint has at most 150 binary places
            } else {
                double d = (double) r.range(1, 999999999) / 1024;
                long double m = ((long double) d + (long double) std::nextafter(d, INFINITY)) / 2;
                snprintf(b, sizeof b, "%.*Lf", 80, m);
            }
            Str s = b;
            while (s.size() > 2 && s.back() == '0') s.pop_back();
            if (s.back() == '.') s += "0";
            int w = r.upto(3);
            if (w == 1) s += Str(r.upto(20), '0') + "1";
            if (w == 2) { while (s.back() == '0' || s.back() == '.') s.pop_back(); s.back()--; if (s.back() < '0') s.back() = '0'; s += Str(1 + r.upto(20), '9'); }
            return s;
        }
        case 0: snprintf(b, sizeof b, "%.*g", 1 + r.upto(20), gen<double>(r)); return b;
        case 1: snprintf(b, sizeof b, "%.*e", r.upto(20), gen<double>(r)); return b;
        case 2: { double d = gen<float>(r); snprintf(b, sizeof b, "%.*f", r.upto(12), d); return b; }
        case 3: return std::to_string(r.i64());
        case 4: return Str(r.chance(50) ? "-" : r.chance(30) ? "+" : "") + r.bytes(1 + r.upto(30), "0123456789") + (r.chance(60) ? "." + r.bytes(r.upto(25), "0123456789") : "")
                       + (r.chance(50) ? Str(r.chance(50) ? "e" : "E") + (r.chance(50) ? "-" : r.chance(30) ? "+" : "") + std::to_string(r.upto(r.chance(80) ? 40 : 400)) : Str());
        default: { static const std::vector<Str> s = {"INFINITY", "-INFINITY", "Infinity", "inf", "-inf", "nan", "NaN", ".5", "5.", "-.5", "0", "-0", "-0.0", "00012", "1e5", "1E-5", "1e999", "-1e999", "1e-999",
            "3.4028235e38", "3.4028236e38", "1.17549435e-38", "1.4e-45", "4.9e-324", "1.7976931348623157e308", "2.2250738585072011e-308", "9007199254740993", "16777217", "0.1", "123456789012345678901234567890"};
            return r.pick(s); }
    }
}
static bool plain(const Str &s) {               // the texts whose acceptance Java and C agree about
    for (char ch : s) if (ch == 'x' || ch == 'X' || ch == '(' || ch == 'p' || ch == 'P') return false;
    return s.empty() || !strchr("fFdD", s.back());
}
WORKLOAD(parse, 20000, 500000) {
    for (int k = 0; k < 3; ++k) {
        Str s = number(c.r);
        int m = c.r.upto(10);
        if (m == 0) s.insert(c.r.upto(s.size() + 1), 1, c.r.pick(std::vector<char>{'-', '+', '.', 'e', ' ', 'a', ',', '0', '\0', '_'}));
        if (m == 1 && !s.empty()) s.erase(c.r.upto(s.size()), 1);
        if (m == 2) s = s.substr(0, c.r.upto(s.size() + 1));
        if (m == 3) s = Str(c.r.upto(3), ' ') + s + Str(c.r.upto(3), c.r.chance(50) ? ' ' : '\t');
        if (m == 4) s = s + c.r.pick(std::vector<Str>{"abc", " 1", "e", "-", ".", "..", "%", "1-", ","});
        if (m == 5) s = c.r.pick(std::vector<Str>{"", " ", "-", "+", ".", "e5", "-e", "abc", "--1", "+-1", "1 2", "infinit", "na", "1e", "1e+", ".e1", "-.", "\t\n", "1,5", "0b1", "one"});
        if (!plain(s)) continue;
        Str t = s;                              // Java trims control characters and blanks
        while (!t.empty() && (unsigned char) t.back() <= ' ') t.pop_back();
        size_t i = 0;
        while (i < t.size() && (unsigned char) t[i] <= ' ') ++i;
        t = t.substr(i);
        char *e;
        double d = strtod(t.c_str(), &e);
        bool ok = !t.empty() && e == t.c_str() + t.size();
        float f = strtof(t.c_str(), &e);
        c.ev(ok ? "accepted" : "rejected");
        OP("parse", s);
        float gf = 0; double gd = 0;
        bool useValueOf = c.r.chance(30);
        Str exf = thrown([&]() { gf = useValueOf ? Float::valueOf(J(s)).floatValue() : Float::parseFloat(J(s)).floatValue(); });
        Str exd = thrown([&]() { gd = useValueOf ? Double::valueOf(J(s)).doubleValue() : Double::parseDouble(J(s)).doubleValue(); });
        Str want = ok ? "" : "NumberFormatException";
        c.check(exf == want, "Float.parse-acceptance", esc(s) + (exf.empty() ? " gave " + show(gf) : " threw " + exf));
        c.check(exd == want, "Double.parse-acceptance", esc(s) + (exd.empty() ? " gave " + show(gd) : " threw " + exd));
        if (ok) {
            c.check(same(gf, f), "Float.parse-value", esc(s) + " gave " + show(gf) + " expected " + show(f));
            c.check(same(gd, d), "Double.parse-value", esc(s) + " gave " + show(gd) + " expected " + show(d));
            Float o(J(s));
            checkValue<float>(c, o, f);
        }
    }
}
WORKLOAD(constants, 4, 4) {                       // MIN_VALUE and MIN_NORMAL are exchanged; the existing tests assert it
    OP("constants");
    volatile float ff[] = {Float::POSITIVE_INFINITY, Float::NEGATIVE_INFINITY, Float::MAX_VALUE, Float::MIN_NORMAL, Float::MIN_VALUE};
    const float fw[] = {INFINITY, -INFINITY, FLT_MAX, std::numeric_limits<float>::denorm_min(), FLT_MIN};
    volatile double dd[] = {Double::POSITIVE_INFINITY, Double::NEGATIVE_INFINITY, Double::MAX_VALUE, Double::MIN_NORMAL, Double::MIN_VALUE};
    const double dw[] = {INFINITY, -INFINITY, DBL_MAX, std::numeric_limits<double>::denorm_min(), DBL_MIN};
    for (int i = 0; i < 5; ++i) { c.eq((float) ff[i], fw[i], "Float.constant" + show(i)); c.eq((double) dd[i], dw[i], "Double.constant" + show(i)); }
    volatile float fn = Float::NaN; volatile double dn = Double::NaN;
    c.check(std::isnan((float) fn) && std::isnan((double) dn), "NaN", "NaN constant is a number");
    volatile long v[] = {Float::MIN_EXPONENT, Float::MAX_EXPONENT, Float::SIZE, Float::BYTES, Float::SIGNIFICAND_WIDTH, Float::MIN_SUB_EXPONENT, Float::EXP_BIAS, Float::SIGN_BIT_MASK, Float::EXP_BIT_MASK, Float::SIGNIF_BIT_MASK,
                         Double::MIN_EXPONENT, Double::MAX_EXPONENT, Double::SIGNIFICAND_WIDTH, Double::MIN_SUB_EXPONENT, Double::EXP_BIAS, Double::SIGN_BIT_MASK, Double::EXP_BIT_MASK, Double::SIGNIF_BIT_MASK};
    const long w[] = {-126, 127, 32, 4, 24, -149, 127, INT32_MIN, 0x7F800000, 0x007FFFFF, -1022, 1023, 53, -1074, 1023, INT64_MIN, 0x7FF0000000000000L, 0x000FFFFFFFFFFFFFL};
    for (size_t i = 0; i < sizeof w / sizeof *w; ++i) c.eq((long) v[i], w[i], "layout-constant" + show(i));
}
MON_MAIN
