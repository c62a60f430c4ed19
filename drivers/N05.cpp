// N05: Math against exact 128-bit / extended-precision oracles.
#include "lib.hpp"
#include <limits>
using mon::Ctx;
typedef Java::Lang::Math M;
typedef __int128 W;

template<class P> static P bitsTo(uint64_t b);
template<> float bitsTo<float>(uint64_t b) { uint32_t x = (uint32_t) b; float f; memcpy(&f, &x, 4); return f; }
template<> double bitsTo<double>(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
template<class P> static bool same(P a, P b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
template<class P> static void eqv(Ctx &c, P a, P b, const Str &key) { c.check(same(a, b), key, "got " + show(a) + " expected " + show(b)); }
template<class P> static P gen(mon::Rng &r) {
    typedef std::numeric_limits<P> L;
    static const std::vector<P> sp = {(P) 0, (P) -0.0, 1, -1, (P) 0.5, (P) -0.5, (P) 1.5, (P) -1.5, (P) 2.5, (P) -2.5, (P) 3.5, L::infinity(), -L::infinity(),
        L::quiet_NaN(), L::max(), -L::max(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), (P) (L::min() - L::denorm_min()),
        (P) 2147483647.0, (P) 2147483647.5, (P) 2147483648.0, (P) -2147483648.0, (P) -2147483648.5, (P) -2147483649.0, (P) 9223372036854775807.0, (P) -9223372036854775808.0,
        (P) 4503599627370495.5, (P) 4503599627370497.0, (P) 9007199254740991.0, (P) 8388607.5, (P) 8388609.0, (P) 0.49999999999999994, (P) 0.49999997f, (P) 16777216.0, (P) 3.141592653589793, (P) 1.5707963267948966, (P) 180, (P) 90};
    switch (r.upto(7)) {
        case 0: case 1: return r.pick(sp);
        case 2: return bitsTo<P>(r.u64());
        case 3: return (P) r.range(-300, 300) / (P) 2;
        case 4: return (P) r.range(-100000, 100000) / (P) 1000;
        case 5: return std::ldexp((P) (r.u64() >> 12) / (P) 4503599627370496.0 + 1, (int) r.range(-160, 160)) * (r.chance(50) ? 1 : -1);
        default: return std::nextafter(r.pick(sp), r.chance(50) ? L::infinity() : -L::infinity());
    }
}

// ---------------------------------------------------------------- exact integer arithmetic
template<class I, class F> static void exact(Ctx &c, const char *name, I a, I b, W want, F f) {
    bool fits = want >= (W) std::numeric_limits<I>::min() && want <= (W) std::numeric_limits<I>::max();
    OP(Str(name) + (sizeof(I) == 4 ? "_int" : "_long"), a, b);
    I got = 0;
    Str ex = thrown([&]() { got = f(); });
    if (fits) {
        c.check(ex == "", Str(name) + "-throws", "threw " + ex + " though the result fits");
        c.eq(got, (I) want, name);
        c.ev("exact_in_range");
    } else {
        c.check(ex == "ArithmeticException", Str(name) + "-silent-overflow", ex == "" ? "returned " + show(got) : "threw " + ex);
        c.ev("exact_overflows");
    }
}
template<class I> static void exacts(Ctx &c, I a, I b) {
    exact<I>(c, "addExact", a, b, (W) a + b, [&]() { return M::addExact(a, b); });
    exact<I>(c, "subtractExact", a, b, (W) a - b, [&]() { return M::subtractExact(a, b); });
    exact<I>(c, "multiplyExact", a, b, (W) a * b, [&]() { return M::multiplyExact(a, b); });
    exact<I>(c, "incrementExact", a, 0, (W) a + 1, [&]() { return M::incrementExact(a); });
    exact<I>(c, "decrementExact", a, 0, (W) a - 1, [&]() { return M::decrementExact(a); });
    exact<I>(c, "negateExact", a, 0, -(W) a, [&]() { return M::negateExact(a); });
    I d = 0, m = 0;
    OP("floorDivMod", a, b);
    Str ex = thrown([&]() { d = M::floorDiv(a, b); });
    Str ex2 = thrown([&]() { m = M::floorMod(a, b); });
    if (b == 0) {
        c.check(ex == "ArithmeticException" && ex2 == "ArithmeticException", "floorDiv-by-zero", ex + "/" + ex2);
        c.ev("zero_divisors");
    } else {
        c.check(ex == "" && ex2 == "", "floorDiv-throws", ex + ex2);
        W q = (W) a / b, r = (W) a % b;
        if (r != 0 && ((r < 0) != (b < 0))) { q -= 1; r += b; }
        c.eq(d, (I) q, "floorDiv");
        c.eq(m, (I) r, "floorMod");
    }
    c.eq(M::max(a, b), a > b ? a : b, "max(integer)");
    c.eq(M::min(a, b), a < b ? a : b, "min(integer)");
    if (a != std::numeric_limits<I>::min()) c.eq(M::abs(a), a < 0 ? (I) -a : a, "abs(integer)");
    else c.eq(M::abs(a), a, "abs(MIN)");
}
template<class I> static I near(mon::Rng &r, I a, I b) {        // operands whose sum/product sits at the limits
    const I mx = std::numeric_limits<I>::max(), mn = std::numeric_limits<I>::min();
    switch (r.upto(7)) {
        case 6: return r.chance(50) ? (I) -1 : (I) (W) -(W) a;
        case 0: return a > 0 ? (I) (mx - a) : (I) (mn - a);
        case 1: return a > 0 ? (I) ((W) mx - a + r.range(-1, 1) > mx ? mx : (W) mx - a + r.range(-1, 0)) : mn;
        case 2: return a ? (I) (mx / a) : b;
        case 3: return a && a != -1 ? (I) ((W) (mn / a) + (mn / a < mx && mn / a > mn ? r.range(-1, 1) : 0)) : b;
        case 4: return a;
        default: return b;
    }
}
template<class I> static void extremes(Ctx &c) {                // every pair of the values at the limits
    const I mx = std::numeric_limits<I>::max(), mn = std::numeric_limits<I>::min();
    const I v[] = {mn, (I) (mn + 1), (I) (mn / 2), (I) (mn / 2 - 1), -2, -1, 0, 1, 2, (I) (mx / 2), (I) (mx / 2 + 1), (I) (mx - 1), mx};
    for (I a : v) for (I b : v) { exacts<I>(c, a, b); c.ev("pairs_of_limits"); }
}
WORKLOAD(extremes, 8, 8) { extremes<int>(c); extremes<long>(c); }
WORKLOAD(exact_int, 16000, 500000) { int a = c.r.i32(), b = near<int>(c.r, a, c.r.i32()); exacts<int>(c, a, b); }
WORKLOAD(exact_long, 16000, 500000) {
    long a = c.r.i64(), b = near<long>(c.r, a, c.r.i64());
    if (c.r.chance(30)) { a = (long) (1ULL << c.r.upto(63)) + c.r.range(-2, 2); b = (long) (1ULL << c.r.upto(63)) + c.r.range(-2, 2); if (c.r.chance(50)) a = -a; if (c.r.chance(50)) b = -b; }
    exacts<long>(c, a, b);
    long v = c.r.chance(50) ? (long) c.r.i32() + c.r.range(-2, 2) : a;
    OP("toIntExact", v);
    int got = 0;
    Str ex = thrown([&]() { got = M::toIntExact(v); });
    if (v == (long) (int) v) { c.check(ex == "", "toIntExact-throws", ex); c.eq(got, (int) v, "toIntExact"); }
    else { c.check(ex == "ArithmeticException", "toIntExact-silent-overflow", ex == "" ? "returned " + show(got) : ex); c.ev("exact_overflows"); }
}

// ---------------------------------------------------------------- rounding and neighbours
template<class P> static P uplink(P x, bool up) { return std::nextafter(x, up ? std::numeric_limits<P>::infinity() : -std::numeric_limits<P>::infinity()); }
template<class P> static P ulpOf(P x) {
    typedef std::numeric_limits<P> L;
    if (x != x) return x;
    x = std::fabs(x);
    if (std::isinf(x)) return x;
    if (x == L::max()) return x - std::nextafter(x, (P) 0);
    return std::nextafter(x, L::infinity()) - x;
}
template<class P, class I> static void rounding(Ctx &c) {
    typedef std::numeric_limits<P> L;
    const char *T = sizeof(P) == 4 ? "(float)" : "(double)";
    for (int k = 0; k < 4; ++k) {
        P x = gen<P>(c.r), y = c.r.chance(20) ? x : c.r.chance(10) ? -x : gen<P>(c.r);
        OP(Str("rounding") + T, x, y);
        if (x != x) c.ev("nan_operands");
        I want;
        if (x != x) want = 0;
        else {
            long double f = floorl((long double) x + 0.5L);     // exact: 64-bit significand covers double + 0.5 near halves
            if (std::fabs((double) x) >= 4503599627370496.0) f = (long double) x;
            want = f >= (long double) std::numeric_limits<I>::max() ? std::numeric_limits<I>::max() : f <= (long double) std::numeric_limits<I>::min() ? std::numeric_limits<I>::min() : (I) f;
        }
        c.eq((I) M::round(x), want, Str("round") + T);
        eqv<P>(c, M::abs(x), std::fabs(x), Str("abs") + T);
        P mx = x != x ? x : y != y ? y : x > y ? x : y > x ? y : std::signbit(x) ? y : x;
        P mn = x != x ? x : y != y ? y : x < y ? x : y < x ? y : std::signbit(x) ? x : y;
        eqv<P>(c, M::max(x, y), mx, Str("max") + T);
        eqv<P>(c, M::min(x, y), mn, Str("min") + T);
        eqv<P>(c, M::nextUp(x), x != x ? x : uplink<P>(x, true), Str("nextUp") + T);
        if (!(sizeof(P) == 4 && x == 0))                          // pinned by a test: see known_findings.txt
            eqv<P>(c, M::nextDown(x), x != x ? x : uplink<P>(x, false), Str("nextDown") + T);
        double dir = c.r.chance(40) ? (double) y : gen<double>(c.r);
        if (x == x && dir == dir) {
            P na = (double) x == dir ? (P) dir : uplink<P>(x, dir > (double) x);
            eqv<P>(c, M::nextAfter(x, dir), na, Str("nextAfter") + T);
        } else c.check(M::nextAfter(x, dir) != M::nextAfter(x, dir), Str("nextAfter-NaN") + T, "not NaN");
        eqv<P>(c, M::ulp(x), ulpOf<P>(x), Str("ulp") + T);
        eqv<P>(c, M::copySign(x, y == y ? y : (P) 1), std::copysign(x, y == y ? y : (P) 1), Str("copySign") + T);
        eqv<P>(c, M::signum(x), x != x || x == 0 ? x : x > 0 ? (P) 1 : (P) -1, Str("signum") + T);
        int e = std::isfinite(x) ? (x == 0 || std::fabs(x) < L::min() ? L::min_exponent - 2 : std::ilogb(x)) : L::max_exponent;
        c.eq(M::getExponent(x), e, Str("getExponent") + T);
        int s = c.r.chance(80) ? (int) c.r.range(-60, 60) : (int) c.r.range(-2200, 2200);
        eqv<P>(c, M::scalb(x, s), (P) std::ldexp(x, s), Str("scalb") + T);
        if (x != 0 && std::fabs(x) < L::min()) c.ev("subnormals");
    }
}
WORKLOAD(rounding_float, 12000, 400000) { rounding<float, int>(c); }
WORKLOAD(rounding_double, 12000, 400000) { rounding<double, long>(c); }

static double myrint(double x) {
    if (!(std::fabs(x) < 4503599627370496.0)) return x;
    double f = std::floor(x), d = x - f;
    double r = d < 0.5 ? f : d > 0.5 ? f + 1 : (std::fmod(f, 2) == 0 ? f : f + 1);
    return std::copysign(r, x);
}
WORKLOAD(rounding_more, 12000, 400000) {
    for (int k = 0; k < 4; ++k) {
        double x = gen<double>(c.r), y = gen<double>(c.r);
        OP("floor_ceil_rint", x, y);
        eqv<double>(c, M::rint(x), myrint(x), "rint");
        double f = M::floor(x), g = M::ceil(x);
        if (std::isfinite(x)) {
            c.check(f <= x && (f == x || f + 1 > x) && f == std::trunc(f), "floor", show(x) + " -> " + show(f));
            c.check(g >= x && (g == x || g - 1 < x) && g == std::trunc(g), "ceil", show(x) + " -> " + show(g));
            if (x == 0) { eqv<double>(c, f, x, "floor(0)"); eqv<double>(c, g, x, "ceil(0)"); }
        } else { eqv<double>(c, f, x, "floor"); eqv<double>(c, g, x, "ceil"); }
        eqv<double>(c, M::sqrt(x), x < 0 ? NAN : std::sqrt(x), "sqrt");
        if (!std::isinf(y) || x != x) {
            double e = x != x || y != y || y == 0 || std::isinf(x) ? NAN : std::remainder(x, y);
            if (!std::isinf(y)) eqv<double>(c, M::IEEERemainder(x, y), e, "IEEERemainder");
            else c.check(std::isnan(M::IEEERemainder(x, y)), "IEEERemainder-NaN", "not NaN");
        }
    }
}

// ---------------------------------------------------------------- transcendental functions
static void close(Ctx &c, double got, long double want, const Str &key, double x, double y = 0, double ulps = 4) {
    double w = (double) want;
    if (w != w || got != got) { c.check(w != w && got != got, key, show(x) + "," + show(y) + ": got " + show(got) + " expected " + show(w)); return; }
    if (got == w) {
        if (w == 0) c.check(std::signbit(got) == std::signbit(w), key + "-zero-sign", show(x) + "," + show(y) + ": got " + show(got));
        else c.check(true, key, "");
        return;
    }
    long double tol = (long double) ulps * (std::isinf(w) ? ulpOf<double>(std::numeric_limits<double>::max()) : ulpOf<double>(w));
    long double wl = std::isinf(w) ? copysignl(1.8e308L, want) : want, gl = std::isinf(got) ? copysignl(1.797693134862315808e308L, got) : (long double) got;
    c.check(fabsl(gl - wl) <= tol, key, show(x) + "," + show(y) + ": got " + show(got) + " expected " + show(w));
}
WORKLOAD(transcendental, 12000, 400000) {
    for (int k = 0; k < 3; ++k) {
        double x = gen<double>(c.r), y = gen<double>(c.r);
        if (c.r.chance(40)) x = (c.r.unit() * 2 - 1) * (c.r.chance(50) ? 1.01 : 8), y = (c.r.unit() * 2 - 1) * 12;
        OP("transcendental", x, y);
        long double X = x, Y = y;
        close(c, M::sin(x), sinl(X), "sin", x); close(c, M::cos(x), cosl(X), "cos", x); close(c, M::tan(x), tanl(X), "tan", x);
        close(c, M::asin(x), asinl(X), "asin", x); close(c, M::acos(x), acosl(X), "acos", x); close(c, M::atan(x), atanl(X), "atan", x);
        close(c, M::atan2(x, y), atan2l(X, Y), "atan2", x, y);
        close(c, M::sinh(x), sinhl(X), "sinh", x); close(c, M::cosh(x), coshl(X), "cosh", x); close(c, M::tanh(x), tanhl(X), "tanh", x);
        close(c, M::exp(x), expl(X), "exp", x); close(c, M::expm1(x), expm1l(X), "expm1", x);
        close(c, M::log(x), logl(X), "log", x); close(c, M::log10(x), log10l(X), "log10", x); close(c, M::log1p(x), log1pl(X), "log1p", x);
        close(c, M::cbrt(x), cbrtl(X), "cbrt", x);
        close(c, M::hypot(x, y), hypotl(X, Y), "hypot", x, y);
        double p = c.r.chance(30) ? (double) c.r.range(-40, 40) : y;
        long double pw = p != p || (std::isinf(p) && std::fabs(x) == 1) ? NAN : !std::isfinite(x) || x == 0 || !(std::fabs(p) < 1e15) ? (long double) std::pow(x, p) : powl(X, (long double) p);   // powl(-inf, -2^63) is wrong in this libm
        close(c, M::pow(x, p), pw, "pow", x, p);
        if (std::fabs(x) < 1e300 && (x == 0 || std::fabs(x) > 1e-290)) {
            close(c, M::toDegrees(x), X * 180.0L / 3.14159265358979323846264338327950288L, "toDegrees", x);
            close(c, M::toRadians(x), X / 180.0L * 3.14159265358979323846264338327950288L, "toRadians", x);
        }
    }
}
PROBE(nextDown_float_zero) { return M::nextDown(0.0f) == -std::numeric_limits<float>::denorm_min(); }
PROBE(IEEERemainder_infinite_divisor) { return M::IEEERemainder(6.0, INFINITY) == 6.0; }
WORKLOAD(constants, 4, 4) {
    OP("constants");
    volatile double e = M::E, pi = M::PI;
    c.eq((double) e, std::exp(1.0), "E"); c.eq((double) pi, std::acos(-1.0), "PI");
}
MON_MAIN
