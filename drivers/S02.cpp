// S02: String::format against printf itself, directive by directive; valueOf
// and the String constructors against the value they were given.
#include "lib.hpp"
using mon::Ctx;

static Str literal(Ctx &c) {
    static const std::vector<Str> parts = {"", "", " ", "-", "x", "abc ", "[", "] ", "100", "\n", "l", "d", "\xc3\xa9", ".", "#", ", "};
    Str r;
    for (int i = c.r.upto(4); i > 0; --i) r += c.r.pick(parts);
    if (c.r.chance(4)) r += Str(120 + c.r.upto(20), 'L');
    return r;
}
static Str flags(Ctx &c, const Str &allowed) {
    Str r;
    for (char f : allowed) if (c.r.chance(20)) r += f;
    if (c.r.chance(50)) {
        int w = c.r.chance(20) ? 115 + c.r.upto(30) : c.r.chance(10) ? 250 + c.r.upto(800) : 1 + c.r.upto(24);
        r += std::to_string(w);
    }
    return r;
}
static Str prec(Ctx &c, int max = 20) {
    if (!c.r.chance(40)) return "";
    return "." + std::to_string(c.r.chance(15) ? 110 + c.r.upto(40) : c.r.upto(max));
}
static Str pick(Ctx &c, const char *opts) { size_t n = strlen(opts); return Str(1, opts[c.r.upto((int) n)]); }

template<class T> Str render(const Str &f, T v) {
    int n = snprintf(nullptr, 0, f.c_str(), v);
    Str b((size_t) n + 1, '\0');
    snprintf(&b[0], b.size(), f.c_str(), v);
    b.resize((size_t) n);
    return b;
}
static Str text(Ctx &c) {
    int n = c.r.chance(25) ? 120 + c.r.upto(16) : c.r.chance(10) ? c.r.upto(2000) : c.r.upto(30);
    return c.r.bytes(n, "abcXYZ %d%s\xc3\xa9");
}
static double dbl(Ctx &c) {
    switch (c.r.upto(6)) {
        case 0: return (double) c.r.i32();
        case 1: return c.r.unit();
        case 2: return std::ldexp(c.r.unit() - 0.5, (int) c.r.range(-60, 60));
        case 3: { static const std::vector<double> v = {0.0, -0.0, 1.0, 0.5, 1e300, -1e300, 1e-300, 5e-324, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, 999999.5, 0.1, 123456789.125}; return c.r.pick(v); }
        case 4: return std::ldexp(c.r.unit() - 0.5, (int) c.r.range(-1000, 1000));
        default: return (double) c.r.range(-1000, 1000) / 8;
    }
}

// one argument: the value handed to the library, the directive and its rendering
template<class L> struct Arg { L v; Str dir, out; };
static Str lit(Ctx &c) { return literal(c); }
struct I {}; struct S_ {}; struct LO {}; struct LL {}; struct US {}; struct UI {}; struct UL {}; struct D {}; struct F {}; struct CP {}; struct B {}; struct CH {};
struct OI {}; struct OL {}; struct OS {}; struct OD {}; struct OF {}; struct OSt {}; struct OB {};
static Arg<int> mk(Ctx &c, I) { int v = c.r.i32(); Str d = "%" + flags(c, "-+0 ") + prec(c) + pick(c, "diuoxX"); if (c.r.chance(15)) { v = 33 + c.r.upto(90); d = "%" + flags(c, "-") + "c"; } return {v, d, render(d, v)}; }
static Arg<short> mk(Ctx &c, S_) { short v = (short) c.r.i32(); Str d = "%" + flags(c, "-+0 ") + prec(c) + pick(c, "di"); return {v, d, render(d, v)}; }
static Arg<long> mk(Ctx &c, LO) { long v = c.r.i64(); Str d = "%" + flags(c, "-+0 #") + prec(c) + "l" + pick(c, "diuoxX"); return {v, d, render(d, v)}; }
static Arg<long long> mk(Ctx &c, LL) { long long v = c.r.i64(); Str d = "%" + flags(c, "-+0 ") + prec(c) + "ll" + pick(c, "diuxo"); return {v, d, render(d, v)}; }
static Arg<unsigned short> mk(Ctx &c, US) { unsigned short v = (unsigned short) c.r.i32(); Str d = "%" + flags(c, "-0#") + prec(c) + pick(c, "uoxX"); return {v, d, render(d, v)}; }
static Arg<unsigned> mk(Ctx &c, UI) { unsigned v = (unsigned) c.r.i32(); Str d = "%" + flags(c, "-0#") + prec(c) + pick(c, "uoxX"); return {v, d, render(d, v)}; }
static Arg<unsigned long> mk(Ctx &c, UL) { unsigned long v = (unsigned long) c.r.i64(); Str d = "%" + flags(c, "-0#") + prec(c) + "l" + pick(c, "uoxX"); return {v, d, render(d, v)}; }
static Arg<double> mk(Ctx &c, D) { double v = dbl(c); Str d = "%" + flags(c, "-+0 #") + prec(c) + pick(c, "fFeEgGaA"); return {v, d, render(d, v)}; }
static Arg<float> mk(Ctx &c, F) { float v = (float) dbl(c); Str d = "%" + flags(c, "-+0 #") + prec(c) + pick(c, "fFeEgGaA"); return {v, d, render(d, (double) v)}; }
static std::vector<Str> &keep() { static std::vector<Str> k; return k; }
static Arg<const char *> mk(Ctx &c, CP) { keep().push_back(text(c)); const char *v = keep().back().c_str(); Str d = "%" + flags(c, "-") + prec(c, 40) + "s"; return {v, d, render(d, v)}; }
static Arg<bool> mk(Ctx &c, B) { bool v = c.r.chance(50); bool up = c.r.chance(50); return {v, up ? "%B" : "%b", up ? (v ? "TRUE" : "FALSE") : (v ? "true" : "false")}; }
static Arg<char> mk(Ctx &c, CH) { char v = (char) (33 + c.r.upto(90)); Str d = "%" + flags(c, "-") + "c"; return {v, d, render(d, (int) v)}; }
static Arg<Integer> mk(Ctx &c, OI) { auto a = mk(c, I()); return {Integer(a.v), a.dir, a.out}; }
static Arg<Long> mk(Ctx &c, OL) { auto a = mk(c, LO()); return {Long(a.v), a.dir, a.out}; }
static Arg<Short> mk(Ctx &c, OS) { auto a = mk(c, S_()); return {Short(a.v), a.dir, a.out}; }
static Arg<Double> mk(Ctx &c, OD) { auto a = mk(c, D()); return {Double(a.v), a.dir, a.out}; }
static Arg<Float> mk(Ctx &c, OF) { auto a = mk(c, F()); return {Float(a.v), a.dir, a.out}; }
static Arg<String> mk(Ctx &c, OSt) { auto a = mk(c, CP()); return {String(a.v), a.dir, a.out}; }
static Arg<Boolean> mk(Ctx &c, OB) { auto a = mk(c, B()); return {Boolean(a.v), a.dir, a.out}; }

static Str pct(Ctx &c, Str &out) { Str f; while (c.r.chance(20)) { if (c.r.chance(15)) { f += c.r.pick(std::vector<Str>{"%5%", "%-3%", "%0%"}); c.ev("padded_percents"); } else f += "%%"; out += "%"; Str l = literal(c); f += l; out += l; } return f; }

static void finish(Ctx &c, const Str &f, const Str &want, const Str &got, const char *key) {
    c.ev(want.size() >= 128 ? "long_results" : "short_results");
    c.eq(got, want, key);
    (void) f;
}
#define PRE(x) Str l##x = lit(c); f += l##x; w += l##x; f += pct(c, w); f += x.dir; w += x.out;
#define TAIL { Str l = lit(c); f += l; w += l; f += pct(c, w); }
template<class A1> void run1(Ctx &c) {
    auto a = mk(c, A1()); Str f, w; PRE(a) TAIL
    OP("format1", f);
    finish(c, f, w, N(String::format(J(f), a.v)), "format");
}
template<class A1, class A2> void run2(Ctx &c) {
    auto a = mk(c, A1()); auto b = mk(c, A2()); Str f, w; PRE(a) PRE(b) TAIL
    OP("format2", f);
    finish(c, f, w, N(String::format(J(f), a.v, b.v)), "format");
    // too few arguments for the directives: must be reported
    OP("format_missing", f);
    c.check(thrown([&] { String::format(J(f), a.v); }) != "", "format.missing-argument", "no exception for " + esc(f));
    // more arguments than directives: the extra one is ignored
    Str f1 = la + a.dir, w1 = la + a.out;
    OP("format_extra", f1);
    c.eq(N(String::format(J(f1), a.v, b.v)), w1, "format.extra-argument");
}
template<class A1, class A2, class A3, class A4> void run4(Ctx &c) {
    auto a = mk(c, A1()); auto b = mk(c, A2()); auto d = mk(c, A3()); auto e = mk(c, A4());
    Str f, w; PRE(a) PRE(b) PRE(d) PRE(e) TAIL
    OP("format4", f);
    finish(c, f, w, N(String::format(J(f), a.v, b.v, d.v, e.v)), "format");
    c.check(thrown([&] { String::format(J(f), a.v, b.v, d.v); }) != "", "format.missing-argument", "no exception for " + esc(f));
    c.check(thrown([&] { String::format(J(f)); }) != "", "format.missing-argument", "no exception for " + esc(f));
}
template<class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8> void run8(Ctx &c) {
    auto a = mk(c, A1()); auto b = mk(c, A2()); auto d = mk(c, A3()); auto e = mk(c, A4());
    auto g = mk(c, A5()); auto h = mk(c, A6()); auto i = mk(c, A7()); auto k = mk(c, A8());
    Str f, w; PRE(a) PRE(b) PRE(d) PRE(e) PRE(g) PRE(h) PRE(i) PRE(k) TAIL
    OP("format8", f);
    finish(c, f, w, N(String::format(J(f), a.v, b.v, d.v, e.v, g.v, h.v, i.v, k.v)), "format");
}

WORKLOAD(format, 9000, 200000) {
    keep().clear();
    keep().reserve(64);
    typedef void (*Fn)(Ctx &);
    static const std::vector<Fn> fns = {
        run1<I>, run1<S_>, run1<LO>, run1<LL>, run1<US>, run1<UI>, run1<UL>, run1<D>, run1<F>, run1<CP>, run1<CP>, run1<B>, run1<CH>,
        run1<OI>, run1<OL>, run1<OS>, run1<OD>, run1<OF>, run1<OSt>, run1<OSt>, run1<OB>,
        run2<I, CP>, run2<CP, CP>, run2<D, OI>, run2<OSt, I>, run2<B, OSt>, run2<LO, UI>, run2<CH, OD>, run2<OL, OS>, run2<OF, OB>, run2<UL, LL>,
        run4<I, CP, D, OSt>, run4<OB, S_, US, F>, run4<OSt, OSt, OSt, OSt>, run4<LL, OL, OI, CH>, run4<UI, B, OF, UL>,
        run8<I, CP, D, OSt, LO, OB, OD, CH>, run8<OI, OL, OS, OF, UL, LL, CP, B>};
    c.r.pick(fns)(c);
}

WORKLOAD(noargs, 1500, 30000) {
    Str f, w;
    for (int i = 0; i <= c.r.upto(5); ++i) { Str l = literal(c); f += l; w += l; f += pct(c, w); }
    OP("format0", f);
    c.eq(N(String::format(J(f))), w, "format0");
    if (c.r.chance(50)) {
        static const std::vector<Str> dirs = {"%d", "%s", "%5.2f", "%ld", "%-10s", "%c", "%x", "%B"};
        Str g = f + c.r.pick(dirs) + literal(c);
        OP("format0_missing", g);
        c.check(thrown([&] { String::format(J(g)); }) != "", "format0.missing-argument", esc(g));
    }
}

WORKLOAD(valueOf, 6000, 100000) {
    int i = c.r.i32(); long l = c.r.i64(); short s = (short) c.r.i32();
    OP("valueOf_int", i);
    c.eq(N(String::valueOf(i)), std::to_string(i), "valueOf(int)");
    OP("valueOf_long", l);
    c.eq(N(String::valueOf(l)), std::to_string(l), "valueOf(long)");
    c.eq(N(String::valueOf((long long) l)), std::to_string(l), "valueOf(long long)");
    OP("valueOf_short", s);
    c.eq(N(String::valueOf(s)), std::to_string(s), "valueOf(short)");
    c.eq(N(String::valueOf(true)), Str("true"), "valueOf(bool)");
    c.eq(N(String::valueOf(false)), Str("false"), "valueOf(bool)");
    char ch = (char) (1 + c.r.upto(255));
    OP("valueOf_char", ch);
    c.eq(N(String::valueOf(ch)), Str(1, ch), "valueOf(char)");
    Str t = text(c);
    OP("valueOf_text", t);
    c.eq(N(String::valueOf(t.c_str())), t, "valueOf(const char*)");
    c.eq(N(String::valueOf((string) t.c_str())), t, "valueOf(char*)");
    Str tn = t + Str(1, '\0') + "tail";
    c.eq(N(String::valueOf(J(tn))), tn, "valueOf(String)");
    double d = dbl(c);
    OP("valueOf_double", d);
    Str sd = N(String::valueOf(d));
    double back = strtod(sd.c_str(), nullptr);
    if (std::isinf(d)) c.check(std::isinf(back) && (back > 0) == (d > 0), "valueOf(double)", sd);
    else {
        c.check(std::fabs(back - d) <= 6e-16 + 2e-16 * std::fabs(d), "valueOf(double)", sd + " for " + show(d));
        c.eq(sd, render("%.15f", d), "valueOf(double).text");
    }
    float fl = (float) dbl(c);
    OP("valueOf_float", fl);
    Str sf = N(String::valueOf(fl));
    float fb = strtof(sf.c_str(), nullptr);
    c.eq(sf, render("%g", fl), "valueOf(float).text");
    if (std::isinf(fl)) c.check(std::isinf(fb), "valueOf(float)", sf);
    else c.check(std::fabs((double) fb - (double) fl) <= 1e-5 * std::fabs((double) fl) + 1e-44, "valueOf(float)", sf + " for " + show(fl));
}

WORKLOAD(construct, 4000, 60000) {
    Str t = c.r.bytes(c.r.size(300), Str("ab\0\xff z", 6));
    OP("construct", t);
    std::vector<char> chars(t.begin(), t.end());
    std::vector<byte> bs(t.begin(), t.end());
    Array<char> ca = A(chars);
    Array<byte> ba = A(bs);
    c.eq(N(String(ca)), t, "String(Array<char>)");
    c.eq(N(String(ba)), t, "String(Array<byte>)");
    c.eq(N(String((const_string) t.data(), (int) t.size())), t, "String(const char*, n)");
    c.eq(N(String((string) t.data(), (int) t.size())), t, "String(char*, n)");
    c.eq(N(String::fromCharArray(ca)), t, "fromCharArray");
    c.eq(N(String::copyValueOf(ca)), t, "copyValueOf");
    int n = (int) t.size();
    int off = (int) c.r.range(-2, n + 2), len = (int) c.r.range(-2, n + 2);
    if (c.r.chance(3)) len = 2147483647;
    if (c.r.chance(3)) off = 2147483647;
    OP("construct_range", off, len);
    bool ok = off >= 0 && len >= 0 && (long) off + len <= n;
    Str a, b, d;
    Str ea = thrown([&] { a = N(String(ca, off, len)); });
    Str eb = thrown([&] { b = N(String(ba, off, len)); });
    c.eq(ea, ok ? Str("") : Str("StringIndexOutOfBoundsException"), "String(Array<char>,off,n).throws");
    c.eq(eb, ok ? Str("") : Str("StringIndexOutOfBoundsException"), "String(Array<byte>,off,n).throws");
    if (ok) { c.eq(a, t.substr(off, len), "String(Array<char>,off,n)"); c.eq(b, t.substr(off, len), "String(Array<byte>,off,n)"); }
    Str z = t.substr(0, t.find('\0'));
    c.eq(N(String(z.c_str())), z, "String(const char*)");
    c.eq(N(String(t)), t, "String(std::string)");
    StringBuilder sb; sb.append(J(z));
    c.eq(N(String(sb)), z, "String(StringBuilder)");
    StringBuffer sf; sf.append(J(z));
    c.eq(N(String(sf)), z, "String(StringBuffer)");
    c.eq(N(String(J(t))), t, "String(String)");
    String q = J(t);
    q = q;
    c.eq(N(q), t, "self-assignment");
}

int main(int argc, char **argv) { return mon::runMain(argc, argv); }
