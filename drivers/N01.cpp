// N01: parsing and printing of Integer, Long and Short against an independent
// 128-bit digit-by-digit oracle.
#include "lib.hpp"
using mon::Ctx;
typedef __int128 W;

static const char DIG[] = "0123456789abcdefghijklmnopqrstuvwxyz";
static Str render(W v, int radix) {
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128) v : (unsigned __int128) v;
    Str r;
    do { r.insert(r.begin(), DIG[(int) (u % radix)]); u /= radix; } while (u);
    return neg ? "-" + r : r;
}
static int digitOf(char ch) {
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'z') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'Z') return ch - 'A' + 10;
    return 99;
}
// Java's grammar: optional sign, one or more digits of the radix, value in [lo,hi]
static bool parse(const Str &s, int radix, W lo, W hi, bool minusAllowed, W &out) {
    size_t i = 0;
    bool neg = false;
    if (s.empty()) return false;
    if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; i = 1; }
    if (neg && !minusAllowed) return false;
    if (i == s.size()) return false;
    W v = 0, cap = (W) 1 << 100;
    for (; i < s.size(); ++i) {
        int d = digitOf(s[i]);
        if (d >= radix) return false;
        if (v < cap) v = v * radix + d;
    }
    if (neg) v = -v;
    if (v < lo || v > hi) return false;
    out = v;
    return true;
}
static bool decode(const Str &s, W lo, W hi, W &out) {
    size_t i = 0;
    bool neg = false;
    int radix = 10;
    if (s.empty()) return false;
    if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; i = 1; }
    if (s.compare(i, 2, "0x") == 0 || s.compare(i, 2, "0X") == 0) { radix = 16; i += 2; }
    else if (s.compare(i, 1, "#") == 0) { radix = 16; i += 1; }
    else if (s.compare(i, 1, "0") == 0 && s.size() > i + 1) { radix = 8; i += 1; }
    Str rest = s.substr(i);
    if (rest.empty() || rest[0] == '-' || rest[0] == '+') return false;
    return parse((neg ? "-" : "") + rest, radix, lo, hi, true, out);
}
static Str ucase(Ctx &c, Str s) {
    int m = c.r.upto(3);
    for (auto &ch : s) if (ch >= 'a' && ch <= 'z' && (m == 1 || (m == 2 && c.r.chance(50)))) ch -= 32;
    return s;
}
// texts around the numerals of a type, well formed or damaged
static Str candidate(Ctx &c, int radix, bool prefixes) {
    W v;
    switch (c.r.upto(6)) {
        case 0: v = c.r.i32(); break;
        case 1: v = c.r.i64(); break;
        case 2: { static const std::vector<W> lim = {127, 128, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL,
                   (W) INT64_MAX, (W) INT64_MAX + 1, (W) UINT64_MAX, (W) UINT64_MAX + 1, (W) UINT64_MAX + 2, ((W) 1 << 64) + 5, ((W) 1 << 70)};
                  v = c.r.pick(lim) + c.r.range(-2, 2); if (c.r.chance(50)) v = -v; break; }
        case 3: v = (W) c.r.i64() * (W) c.r.range(1, 1000); break;
        case 4: v = (short) c.r.i32(); break;
        default: v = c.r.range(-40, 40);
    }
    Str s = ucase(c, render(v, radix));
    if (prefixes && c.r.chance(60)) {
        bool neg = s[0] == '-';
        W a = v < 0 ? -v : v;
        static const std::vector<Str> p = {"0x", "0X", "#", "0", "00", "0x0", "0b"};
        Str pre = c.r.pick(p);
        s = (neg ? "-" : "") + pre + ucase(c, render(a, pre == "0" || pre == "00" ? 8 : pre == "0b" ? 2 : 16));
    }
    if (c.r.chance(12)) s = (s[0] == '-') ? "-" + Str(1 + c.r.upto(c.r.chance(20) ? 40 : 3), '0') + s.substr(1) : Str(1 + c.r.upto(3), '0') + s;
    if (c.r.chance(15) && s[0] != '-') s = "+" + s;
    if (c.r.chance(45)) {
        static const Str junk = Str("0123456789afgzAFGZ+-#xX. \t\n,_%/:@[`{") + Str(1, (char) 0) + "\x80";
        for (int k = 1 + c.r.upto(2); k > 0; --k) {
            size_t p = (size_t) c.r.upto((int) s.size() + 1);
            switch (c.r.upto(4)) {
                case 0: s.insert(p, 1, junk[c.r.upto((int) junk.size())]); break;
                case 1: if (p < s.size()) s.erase(p, 1); break;
                case 2: if (p < s.size()) s[p] = junk[c.r.upto((int) junk.size())]; break;
                default: { static const std::vector<Str> whole = {"", "-", "+", "--1", "+-1", "-+1", " 1", "1 ", "0x", "-0x", "#", "-#", "0", "-0", "+0", "00", "08", "0-1", "0x-1", "#-1", "#+1", "0x+1", "-0x-1", "x", "1L", "1e3", "NaN", "null", "0x8000000000000000", "-0x8000000000000000", "-#80000000", "0xg"};
                           s = c.r.pick(whole); }
            }
        }
    }
    return s;
}

template<class F> static void expect(Ctx &c, const char *what, bool ok, const W &want, F call) {
    long got = 0;
    Str ex = thrown([&]() { got = (long) call(); });
    if (ok) {
        c.ev("accepted");
        c.check(ex == "", Str(what) + ".rejects-valid", "threw " + ex + " expected " + render(want, 10));
        c.check((W) got == want, Str(what) + ".value", "got " + show(got) + " expected " + render(want, 10));
    } else {
        c.ev("rejected");
        c.check(ex == "NumberFormatException", Str(what) + ".accepts-junk", ex == "" ? "returned " + show(got) : "threw " + ex);
    }
}

WORKLOAD(int_parse, 30000, 1000000) {
    for (int k = 0; k < 4; ++k) {
        bool ten = c.r.chance(35);
        int radix = ten ? 10 : c.r.chance(10) ? (int) c.r.range(-3, 45) : c.r.chance(50) ? c.r.pick(std::vector<int>{2, 8, 16, 32, 31, 27, 10}) : (int) c.r.range(2, 32);
        int gr = radix < 2 || radix > 36 ? 10 : radix;
        Str s = candidate(c, gr, c.r.chance(5));
        bool radixOk = radix >= 2 && radix <= 32;
        W v = 0;
        if (radix >= 33 && radix <= 36) continue;   // rejected by the library on purpose (tests pin the limit of 32)
        switch (c.r.upto(4)) {
            case 0:
                OP("Integer.parseInt", s, radix);
                expect(c, "Integer.parseInt", radixOk && parse(s, gr, INT32_MIN, INT32_MAX, true, v), v, [&]() { return Integer::parseInt(J(s), radix); });
                break;
            case 1: {
                OP("Integer.parseUnsignedInt", s, radix);
                bool ok = radixOk && parse(s, gr, 0, UINT32_MAX, false, v);
                expect(c, "Integer.parseUnsignedInt", ok, (W) (int32_t) (uint32_t) v, [&]() { return Integer::parseUnsignedInt(J(s), radix); });
                break; }
            case 2:
                OP("Integer.valueOf", s, radix);
                expect(c, "Integer.valueOf", radixOk && parse(s, gr, INT32_MIN, INT32_MAX, true, v), v, [&]() { return Integer::valueOf(J(s), radix).intValue(); });
                break;
            default: {
                s = candidate(c, 10, c.r.chance(5));
                OP("Integer.parse10", s);
                bool ok = parse(s, 10, INT32_MIN, INT32_MAX, true, v);
                expect(c, "Integer.parseInt10", ok, v, [&]() { return Integer::parseInt(J(s)); });
                expect(c, "Integer.valueOf10", ok, v, [&]() { return Integer::valueOf(J(s)).intValue(); });
                expect(c, "Integer.construct", ok, v, [&]() { return Integer(J(s)).intValue(); });
                ok = parse(s, 10, 0, UINT32_MAX, false, v);
                expect(c, "Integer.parseUnsignedInt10", ok, (W) (int32_t) (uint32_t) v, [&]() { return Integer::parseUnsignedInt(J(s)); });
            }
        }
    }
}

WORKLOAD(int_decode, 12000, 400000) {
    for (int k = 0; k < 4; ++k) {
        Str s = candidate(c, 10, true);
        OP("Integer.decode", s);
        W v = 0;
        bool ok = decode(s, INT32_MIN, INT32_MAX, v);
        expect(c, "Integer.decode", ok, v, [&]() { return Integer::decode(J(s)).intValue(); });
    }
}

// Long reports text it cannot read by the value -1
WORKLOAD(long_parse, 30000, 1000000) {
    for (int k = 0; k < 4; ++k) {
        bool ten = c.r.chance(35);
        int radix = ten ? 10 : c.r.chance(10) ? (int) c.r.range(-3, 45) : c.r.chance(50) ? c.r.pick(std::vector<int>{2, 8, 16, 32, 35, 36, 10}) : (int) c.r.range(2, 36);
        bool radixOk = radix >= 2 && radix <= 36;
        int gr = radixOk ? radix : 10;
        Str s = candidate(c, gr, c.r.chance(5));
        W v = -1, d = -1;
        if (!(radixOk && parse(s, gr, INT64_MIN, INT64_MAX, true, v))) { v = -1; c.ev("rejected"); } else c.ev("accepted");
        OP("Long.parseLong", s, radix);
        expect(c, "Long.parseLong", true, v, [&]() { return Long::parseLong(J(s), radix); });
        expect(c, "Long.valueOf", true, v, [&]() { return Long::valueOf(J(s), radix).longValue(); });
        s = candidate(c, 10, c.r.chance(50));
        v = -1;
        if (!parse(s, 10, INT64_MIN, INT64_MAX, true, v)) v = -1;
        OP("Long.parse10", s);
        expect(c, "Long.parseLong10", true, v, [&]() { return Long::parseLong(J(s)); });
        expect(c, "Long.valueOf10", true, v, [&]() { return Long::valueOf(J(s)).longValue(); });
        if (!decode(s, INT64_MIN, INT64_MAX, d)) d = -1;
        expect(c, "Long.decode", true, d, [&]() { return Long::decode(J(s)).longValue(); });
        expect(c, "Long.getLong", true, d, [&]() { return Long::getLong(J(s)).longValue(); });
    }
}

WORKLOAD(short_parse, 10000, 300000) {
    for (int k = 0; k < 4; ++k) {
        Str s = candidate(c, 10, c.r.chance(10));
        OP("Short.parseShort", s);
        W v = 0;
        bool ok = parse(s, 10, -32768, 32767, true, v);
        expect(c, "Short.parseShort", ok, v, [&]() { return Short::parseShort(J(s)).intValue(); });
    }
}

WORKLOAD(print, 20000, 600000) {
    for (int k = 0; k < 4; ++k) {
        int32_t i = c.r.i32();
        W u = (W) (uint32_t) i;
        OP("Integer.print", (int) i);
        c.eq(N(Integer::toString(i)), render(i, 10), "Integer.toString(int)");
        c.eq(N(Integer(i).toString()), render(i, 10), "Integer.toString()");
        c.eq(N(Integer::toBinaryString(i)), render(u, 2), "Integer.toBinaryString");
        c.eq(N(Integer::toOctalString(i)), render(u, 8), "Integer.toOctalString");
        c.eq(N(Integer::toHexString(i)), render(u, 16), "Integer.toHexString");
        c.eq(N(Integer::toUnsignedString(i)), render(u, 10), "Integer.toUnsignedString");
        int radix = c.r.pick(std::vector<int>{2, 8, 10, 16});
        c.eq(N(Integer::toUnsignedString(i, radix)), render(u, radix), "Integer.toUnsignedString-radix");
        c.eq(N(Integer::toString(i, radix)), render(i, radix), "Integer.toString-radix");
        c.eq(Integer::parseInt(Integer::toString(i, radix), radix), (int) i, "Integer.roundtrip");
        c.eq(Integer::parseUnsignedInt(Integer::toUnsignedString(i, radix), radix), (int) i, "Integer.unsigned-roundtrip");
        c.eq(Integer::decode(Integer::toString(i)).intValue(), (int) i, "Integer.decode-roundtrip");
        c.eq(Integer(Integer::toString(i)).intValue(), (int) i, "Integer.construct-roundtrip");
        c.eq(Integer::toUnsignedLong(i), (long) (uint32_t) i, "Integer.toUnsignedLong");
        int64_t l = c.r.i64();
        W ul = (W) (uint64_t) l;
        OP("Long.print", (long) l);
        c.eq(N(Long::toString(l)), render(l, 10), "Long.toString(long)");
        c.eq(N(Long(l).toString()), render(l, 10), "Long.toString()");
        c.eq(N(Long::toBinaryString(l)), render(ul, 2), "Long.toBinaryString");
        c.eq(N(Long::toOctalString(l)), render(ul, 8), "Long.toOctalString");
        c.eq(N(Long::toHexString(l)), render(ul, 16), "Long.toHexString");
        c.eq(Long::parseLong(Long::toString(l)), (long) l, "Long.roundtrip");
        c.eq(Long::valueOf(Long::toString(l)).longValue(), (long) l, "Long.valueOf-roundtrip");
        c.eq(Long::decode(Long::toString(l)).longValue(), (long) l, "Long.decode-roundtrip");
        if (l >= 0) {
            c.eq(Long::parseLong(Long::toHexString(l), 16), (long) l, "Long.hex-roundtrip");
            c.eq(Long::parseLong(Long::toOctalString(l), 8), (long) l, "Long.octal-roundtrip");
            c.eq(Long::parseLong(Long::toBinaryString(l), 2), (long) l, "Long.binary-roundtrip");
            c.eq(Long::decode(String("0x") + Long::toHexString(l)).longValue(), (long) l, "Long.decode-hex");
        }
        short s = (short) c.r.i32();
        OP("Short.print", s);
        c.eq(N(Short(s).toString()), render(s, 10), "Short.toString");
        c.eq((int) Short::parseShort(Short(s).toString()).shortValue(), (int) s, "Short.roundtrip");
    }
}
MON_MAIN
