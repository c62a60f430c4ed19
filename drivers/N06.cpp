// N06: Bytes, Character and Boolean; byte and char pairs are enumerated exhaustively.
#include "lib.hpp"
using mon::Ctx;
typedef Java::Lang::Bytes By;
typedef Java::Lang::Boolean Bo;
typedef Java::Lang::Character Ch;

static void checkByte(Ctx &c, By &o, int v, const char *how) {
    Str k = Str("Bytes") + how;
    c.eq((int) o.byteValue(), v, k + ".byteValue");
    c.eq(o.intValue(), v, k + ".intValue");
    c.eq(o.longValue(), (long) v, k + ".longValue");
    c.eq((int) o.shortValue(), v, k + ".shortValue");
    c.eq(o.floatValue(), (float) v, k + ".floatValue");
    c.eq(o.doubleValue(), (double) v, k + ".doubleValue");
    c.eq((int) (unsigned char) o.charValue(), v, k + ".charValue");
    c.eq(N(o.toString()), std::to_string(v), k + ".toString");
    c.eq(o.hashCode(), v, k + ".hashCode");
}
// every ordered pair of byte values: 256 cases of 256 pairs
WORKLOAD(byte_pairs, 256, 256) {
    int a = (int) (c.idx % 256);
    OP("Bytes.row", a);
    By oa((byte) a);
    checkByte(c, oa, a, "");
    { By v = By::valueOf((byte) a); checkByte(c, v, a, ".valueOf"); }
    c.eq(N(By::toString((byte) a)), std::to_string(a), "Bytes.toString(v)");
    c.eq(By::hashCode((byte) a), a, "Bytes.hashCode(v)");
    c.eq(By::toUnsignedInt((byte) a), a, "Bytes.toUnsignedInt");
    c.eq(By::toUnsignedLong((byte) a), (long) a, "Bytes.toUnsignedLong");
    for (int b = 0; b < 256; ++b) {
        By ob((byte) b);
        c.eq(sgn(By::compare((byte) a, (byte) b)), sgn(a - b), "Bytes.compare");
        c.eq(sgn(oa.compareTo(ob)), sgn(a - b), "Bytes.compareTo");
        c.eq(oa == ob, a == b, "Bytes=="); c.eq(oa != ob, a != b, "Bytes!=");
        c.eq(oa < ob, a < b, "Bytes<"); c.eq(oa > ob, a > b, "Bytes>");
        c.eq(oa <= ob, a <= b, "Bytes<="); c.eq(oa >= ob, a >= b, "Bytes>=");
        if (b % 16 == 0 || a == b) {
            c.eq((bool) oa.equals(ob), a == b, "Bytes.equals");
            if (a == b) c.eq(std::hash<By>()(oa), std::hash<By>()(ob), "Bytes.std-hash");
        }
        { By r = oa + ob; c.eq(r.intValue(), (a + b) & 255, "Bytes+"); }
        { By r = oa - ob; c.eq(r.intValue(), (a - b) & 255, "Bytes-"); }
        { By r = oa * ob; c.eq(r.intValue(), (a * b) & 255, "Bytes*"); }
        Str e1 = thrown([&]() { By r = oa / ob; c.check(b != 0 && r.intValue() == a / (b ? b : 1), "Bytes/", show(a) + "/" + show(b) + " gave " + show(r.intValue())); });
        Str e2 = thrown([&]() { By r = oa % ob; c.check(b != 0 && r.intValue() == a % (b ? b : 1), "Bytes%", show(a) + "%" + show(b) + " gave " + show(r.intValue())); });
        c.check((b == 0) == (e1 == "ArithmeticException") && (b == 0) == (e2 == "ArithmeticException"), "Bytes-divide-by-zero", e1 + "/" + e2);
        c.ev("byte_pairs");
    }
}
WORKLOAD(byte_history, 6000, 150000) {
    int v[3] = {c.r.upto(256), c.r.upto(256), 0};
    By o[3] = {By((byte) v[0]), By((byte) v[1]), By()};
    OP("Bytes.new", v[0], v[1]);
    int steps = 2 + c.r.upto(14);
    for (int k = 0; k < steps; ++k) {
        int a = c.r.upto(3), b = c.r.upto(3), d = c.r.upto(3), op = c.r.upto(13);
        OP("Bytes.op" + std::to_string(op), a, b, d);
        int x = v[a], y = v[b];
        auto ref = [&](By &r) { c.check(&r == &o[a], "Bytes-compound.ref", "returned another object"); };
        switch (op) {
            case 0: ref(o[a] += o[b]); v[a] = (x + y) & 255; break;
            case 1: ref(o[a] -= o[b]); v[a] = (x - y) & 255; break;
            case 2: ref(o[a] *= o[b]); v[a] = (x * y) & 255; break;
            case 3: case 4: {
                Str ex = thrown([&]() { if (op == 3) ref(o[a] /= o[b]); else ref(o[a] %= o[b]); });
                c.check((y == 0) == (ex == "ArithmeticException") && (y == 0 || ex == ""), "Bytes-compound-divide", ex);
                if (y) v[a] = op == 3 ? x / y : x % y; else c.ev("zero_divisors");
                break;
            }
            case 5: o[d] = o[a]; v[d] = x; break;
            case 6: { By t(o[a]); t += By((byte) 1); checkByte(c, t, (x + 1) & 255, ".copy"); break; }
            case 7: o[d] = o[a] + o[b]; v[d] = (x + y) & 255; break;
            case 8: { int n = c.r.upto(256); o[d] = By::valueOf((byte) n); v[d] = n; break; }
            case 9: { int n = c.r.upto(256); o[d] = By(J(std::to_string(n))); v[d] = n; break; }
            case 10: o[d] = o[a] * o[b]; v[d] = (x * y) & 255; break;
            default: o[d] = o[a] - o[b]; v[d] = (x - y) & 255; break;
        }
        for (int i = 0; i < 3; ++i) checkByte(c, o[i], v[i], "");
    }
}
static Str inRadix(unsigned v, int radix) {
    Str s;
    do { s.insert(0, 1, "0123456789abcdefghijklmnopqrstuvwxyz"[v % radix]); v /= radix; } while (v);
    return s;
}
WORKLOAD(byte_parse, 8000, 200000) {
    int radix = 2 + c.r.upto(31);
    long v = c.r.chance(60) ? c.r.upto(256) : c.r.chance(60) ? c.r.range(-3, 260) : c.r.i32();
    Str s = (v < 0 ? "-" : c.r.chance(10) ? "+" : "") + inRadix((unsigned) std::labs(v), radix);
    int m = c.r.upto(8);
    bool bad = false;
    if (m == 0) { s += c.r.pick(std::vector<Str>{"z!", " ", ".", "-", "/", ":"}); bad = true; }
    if (m == 1) { s = c.r.pick(std::vector<Str>{"", " ", "-", "+", "--1", "1 1", "_"}); bad = true; }
    bool ok = !bad && v >= 0 && v <= 255;
    OP("Bytes.parse", s, radix);
    c.ev(ok ? "accepted" : "rejected");
    int got = -1, got2 = -1;
    Str ex = thrown([&]() { got = By::parseBytes(J(s), radix); });
    Str ex2 = thrown([&]() { got2 = By::valueOf(J(s), radix).intValue(); });
    c.check(ok ? ex == "" && ex2 == "" : ex == "NumberFormatException" && ex2 == ex, "Bytes.parse-acceptance", esc(s) + " radix " + show(radix) + ": " + (ex == "" ? "gave " + show(got) : "threw " + ex) + " / " + ex2);
    if (ok) { c.eq(got, (int) v, "Bytes.parse"); c.eq(got2, (int) v, "Bytes.valueOf"); }
    // decimal forms and decode
    int w = c.r.chance(70) ? c.r.upto(256) : (int) c.r.range(-5, 300);
    Str d = std::to_string(w);
    bool fits = w >= 0 && w <= 255;
    auto agree = [&](const char *name, const Str &text, std::function<int()> f) {
        int r = -1;
        Str e = thrown([&]() { r = f(); });
        c.check(fits ? e == "" && r == w : e == "NumberFormatException", name, esc(text) + ": " + (e == "" ? "gave " + show(r) : "threw " + e));
    };
    OP("Bytes.decimal", d);
    agree("Bytes.parseBytes(text)", d, [&]() { return (int) By::parseBytes(J(d)); });
    agree("Bytes.valueOf(text)", d, [&]() { return By::valueOf(J(d)).intValue(); });
    agree("Bytes(text)", d, [&]() { return By(J(d)).intValue(); });
    Str h = Str(w < 0 ? "-" : "") + c.r.pick(std::vector<Str>{"0x", "0X", "#"}) + inRadix((unsigned) std::abs(w), 16);
    Str o8 = Str(w < 0 ? "-" : "") + "0" + inRadix((unsigned) std::abs(w), 8);
    agree("Bytes.decode-hex", h, [&]() { return By::decode(J(h)).intValue(); });
    agree("Bytes.decode-octal", o8, [&]() { return By::decode(J(o8)).intValue(); });
    agree("Bytes.decode-decimal", d, [&]() { return By::decode(J(d)).intValue(); });
}

// ---------------------------------------------------------------- Character
WORKLOAD(char_pairs, 256, 256) {
    int a = (int) (c.idx % 256);
    OP("Character.row", a);
    Ch oa((char) a);
    c.eq(oa.charValue(), (char) a, "Character.charValue");
    { Ch cp(oa), as; as = oa; c.eq(cp.charValue(), (char) a, "Character.copy"); c.eq(as.charValue(), (char) a, "Character.assign"); }
    std::ostringstream os; os << oa;
    c.eq(os.str(), Str(1, (char) a), "Character.ostream");
    for (int b = 0; b < 256; ++b) {
        Ch ob((char) b);
        int ab = sgn(Ch::compare((char) a, (char) b)), ba = sgn(Ch::compare((char) b, (char) a));
        c.check((ab == 0) == (a == b) && ab == -ba, "Character.compare-antisymmetric", show(a) + "," + show(b));
        if (a < 128 && b < 128) c.eq(ab, sgn(a - b), "Character.compare");
        c.eq(sgn(oa.compareTo(ob)), ab, "Character.compareTo");
        c.ev("char_pairs");
    }
    for (int radix = -1; radix <= 40; ++radix) {
        int d = a >= '0' && a <= '9' ? a - '0' : a >= 'a' && a <= 'z' ? a - 'a' + 10 : a >= 'A' && a <= 'Z' ? a - 'A' + 10 : -1;
        if (radix < 2 || radix > 36 || d >= radix) d = -1;
        c.eq(Ch::digit(a, radix), d, "Character.digit");
    }
}
WORKLOAD(code_points, 4000, 80000) {
    Str s;
    int n = c.r.upto(12);
    for (int i = 0; i < n; ++i) s += (char) c.r.upto(128);
    Array<char> a;
    for (char ch : s) a.push(ch);
    OP("Character.codePoints", s);
    for (int i = 0; i < n; ++i) {
        c.eq(Ch::codePointAt(a, i), (int) s[i], "Character.codePointAt");
        c.eq(Ch::codePointBefore(a, i + 1), (int) s[i], "Character.codePointBefore");
        int lim = (int) c.r.range(-1, n + 1);
        c.eq(Ch::codePointAt(a, i, lim), i < lim && lim <= n ? (int) s[i] : -1, "Character.codePointAt(limit)");
        int st = (int) c.r.range(-1, n + 1);
        c.eq(Ch::codePointBefore(a, i + 1, st), i + 1 > st && st >= 0 && st < n ? (int) s[i] : -1, "Character.codePointBefore(start)");
    }
    int off = (int) c.r.range(-1, n + 1), cnt = (int) c.r.range(-1, n + 1);
    if (c.r.chance(10)) cnt = INT32_MAX - c.r.upto(3);
    if (c.r.chance(10)) off = c.r.chance(50) ? INT32_MAX - c.r.upto(3) : INT32_MIN + c.r.upto(3);
    c.eq(Ch::codePointCount(a, off, cnt), off < 0 || cnt < 0 || (long) off + cnt > n ? -1 : cnt, "Character.codePointCount");
    int cp = c.r.chance(50) ? 0x10000 + (int) c.r.range(-2, 2) : c.r.upto(0x110000);
    Ch o;
    c.eq(o.charCount(cp), cp >= 0x10000 ? 2 : 1, "Character.charCount");
}
PROBE(surrogate_ranges) { return Ch::isHighSurrogate((unicode) 0xD800) && Ch::isLowSurrogate((unicode) 0xDC00) && !Ch::isHighSurrogate((unicode) 0xDC00); }

// ---------------------------------------------------------------- Boolean
WORKLOAD(booleans, 6000, 150000) {
    bool x = c.r.chance(50), y = c.r.chance(50);
    Bo a(x), b(y), k(true);
    OP("Boolean", x, y);
    c.eq((bool) a.booleanValue(), x, "Boolean.booleanValue");
    c.eq(sgn(a.compareTo(b)), (int) x - (int) y, "Boolean.compareTo");
    c.eq(sgn(Bo::compare(x, y)), (int) x - (int) y, "Boolean.compare");
    c.eq(N(a.toString()), Str(x ? "true" : "false"), "Boolean.toString");
    c.eq(N(Bo::toString((boolean) x)), Str(x ? "true" : "false"), "Boolean.toString(v)");
    c.eq(a.hashCode(), x ? 1231 : 1237, "Boolean.hashCode");
    c.eq((bool) a.equals(b), x == y, "Boolean.equals");
    c.eq(a == b, x == y, "Boolean==");
    k = a;
    c.eq((bool) k.booleanValue(), x, "Boolean.assign");
    c.eq((bool) Bo::valueOf((boolean) x).booleanValue(), x, "Boolean.valueOf(v)");
    std::ostringstream os; os << a;
    c.eq(os.str(), Str(x ? "true" : "false"), "Boolean.ostream");
    Str t;
    if (c.r.chance(60)) { t = "true"; for (auto &ch : t) if (c.r.chance(50)) ch = (char) toupper(ch); }
    int m = c.r.upto(8);
    if (m == 0) t += c.r.pick(std::vector<Str>{" ", "e", "\t", "1"});
    if (m == 1 && !t.empty()) t.erase(c.r.upto(t.size()), 1);
    if (m == 2) t = c.r.pick(std::vector<Str>{"", "false", "FALSE", "yes", "1", "TRUEE", "tru", " true", "t", "\xc3\xa9", "TR\xdd" "E", "0"});
    Str low = t;
    for (auto &ch : low) if (ch >= 'A' && ch <= 'Z') ch = (char) (ch + 32);
    bool want = low == "true";
    OP("Boolean.parse", t);
    c.ev(want ? "true_texts" : "false_texts");
    c.eq((bool) Bo::parseBoolean(t.c_str()), want, "Boolean.parseBoolean");
    c.eq((bool) Bo::getBoolean(t.c_str()), want, "Boolean.getBoolean");
    c.eq((bool) Bo::valueOf((const_string) t.c_str()).booleanValue(), want, "Boolean.valueOf(text)");
    c.eq((bool) Bo::valueOf(J(t)).booleanValue(), want, "Boolean.valueOf(String)");
    Bo o((const_string) t.c_str());
    c.eq((bool) o.booleanValue(), want, "Boolean(text)");
}
WORKLOAD(constants, 4, 4) {
    OP("constants");
    volatile int lo = By::MIN_VALUE, hi = By::MAX_VALUE, size = By::SIZE, bytes = By::BYTES;
    c.eq((int) lo, 0, "Bytes.MIN_VALUE"); c.eq((int) hi, 255, "Bytes.MAX_VALUE"); c.eq((int) size, 8, "Bytes.SIZE"); c.eq((int) bytes, 1, "Bytes.BYTES");
}
// the known finding lets surrogates pass as ordinary; no other code point may be taken for a surrogate
WORKLOAD(surrogates, 17, 17) {
    int plane = (int) (c.idx % 17);
    OP("plane", plane);
    for (int u = plane << 16; u < (plane + 1) << 16; ++u) {
        if (u >= 0xD800 && u <= 0xDFFF) continue;
        c.check(!Ch::isHighSurrogate((unicode) u) && !Ch::isLowSurrogate((unicode) u) && !Ch::isSurrogate((unicode) u), "Character.isSurrogate", "code point " + show(u) + " is no surrogate");
    }
    c.ev("code_points", 65536);
}
// the same finding shifts every composed code point; the distances between them must be right
WORKLOAD(surrogate_pairs, 64, 1024) {
    int h = 0xD800 + (int) (c.idx * 16 % 1024) + c.r.upto(16);
    OP("toCodePoint", h);
    int origin = Ch::toCodePoint((unicode) 0xD800, (unicode) 0xDC00);
    for (int l = 0xDC00; l < 0xE000; ++l)
        c.eq(Ch::toCodePoint((unicode) h, (unicode) l) - origin, ((h - 0xD800) << 10) + (l - 0xDC00), "Character.toCodePoint");
    c.ev("surrogate_pairs", 1024);
}
MON_MAIN
