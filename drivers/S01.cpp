// S01: String behaves as an immutable-content byte string under every query
// and transformation; oracle is std::string plus ten-line specifications.
#include "lib.hpp"
using mon::Ctx;

static Str word(Ctx &c, int max = 300) {
    static const std::vector<Str> alph = {"ab", "abc", "aA ", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
        Str(" \t\n\r\x01xy"), Str("ab\0c", 4), "\xc3\xa9\xe1\xba\xa3" "a", "%,;.+-*/\\()[]"};
    Str al = c.r.pick(alph);
    int n = c.r.size(max);
    Str w = c.r.bytes(n, al);
    if (c.r.chance(20)) { Str u = c.r.bytes(1 + c.r.upto(4), al); w.clear(); while ((int) w.size() < n) w += u; }   // periodic
    return w;
}
// a pattern likely to occur in s
static Str piece(Ctx &c, const Str &s) {
    if (s.empty() || c.r.chance(20)) return word(c, 4);
    int b = c.r.upto((int) s.size());
    int l = std::min<int>((int) s.size() - b, 1 + (c.r.chance(70) ? c.r.upto(4) : c.r.upto(40)));
    Str p = s.substr(b, l);
    if (c.r.chance(15) && !p.empty()) p.back() ^= 1;
    return p;
}
static int idx(Ctx &c, const Str &s) {
    switch (c.r.upto(6)) {
        case 0: return -1 - c.r.upto(3);
        case 1: return (int) s.size() + c.r.upto(4);
        case 2: return (int) s.size() - 1;
        case 3: return 0;
        default: return c.r.upto((int) s.size() + 1);
    }
}

// ---- specifications ----
static int specIndexOf(const Str &s, const Str &p, int from) {
    if (p.empty()) return -2;                       // unspecified here
    if (from < 0) from = 0;
    if (from >= (int) s.size()) return -1;
    size_t f = s.find(p, (size_t) from);
    return f == Str::npos ? -1 : (int) f;
}
static int specLastIndexOf(const Str &s, const Str &p, int from) {
    if (from < 0) return -1;
    size_t f = s.rfind(p, (size_t) from);
    return f == Str::npos ? -1 : (int) f;
}
static Str specReplace(const Str &s, const Str &a, const Str &b) {
    Str r;
    if (a.empty()) { r = b; for (char ch : s) { r += ch; r += b; } return r; }
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, a.size(), a) == 0) { r += b; i += a.size(); } else r += s[i++];
    }
    return r;
}
static std::vector<Str> specSplit(const Str &s, const Str &d) {
    std::vector<Str> r;
    Str cur;
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, d.size(), d) == 0) { r.push_back(cur); cur.clear(); i += d.size(); } else cur += s[i++];
    }
    r.push_back(cur);
    return r;
}
static Str specTrim(const Str &s) {
    size_t a = 0, b = s.size();
    while (a < b && (unsigned char) s[a] <= ' ') ++a;
    while (b > a && (unsigned char) s[b - 1] <= ' ') --b;
    return s.substr(a, b - a);
}
static Str asciiLow(Str s) { for (auto &ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
static int specHash(const Str &s) { uint32_t h = 0; for (char ch : s) h = 31 * h + (uint32_t) (int32_t) ch; return (int) h; }
static bool specRegion(const Str &a, int ao, const Str &b, int bo, int len) {
    if (ao < 0 || bo < 0 || (long) ao > (long) a.size() - len || (long) bo > (long) b.size() - len) return false;
    for (int i = 0; i < len; ++i) if (a[ao + i] != b[bo + i]) return false;
    return true;
}

WORKLOAD(search, 9000, 200000) {
    Str s = word(c);
    String j = J(s);
    c.log("s=" + esc(s, 400));
    for (int k = 0; k < 6; ++k) {
        Str p = piece(c, s);
        int f = idx(c, s);
        int ch = p.empty() ? 'q' : (unsigned char) p[0];
        String jp = J(p);
        if (!p.empty()) {
            OP("indexOf", p);
            c.eq(j.indexOf(jp), specIndexOf(s, p, 0), "indexOf(String)");
            OP("indexOf.from", p, f);
            c.eq(j.indexOf(jp, f), specIndexOf(s, p, f), "indexOf(String,from)");
            OP("lastIndexOf", p);
            c.eq(j.lastIndexOf(jp), specLastIndexOf(s, p, (int) s.size()), "lastIndexOf(String)");
            OP("lastIndexOf.from", p, f);
            // f + |p| > |s| with f < |s| is pinned (probe lastIndexOf_from_past_tail)
            if (!(f >= 0 && f < (int) s.size() && f + (int) p.size() > (int) s.size()))
                c.eq(j.lastIndexOf(jp, f), specLastIndexOf(s, p, f), "lastIndexOf(String,from)");
            c.eq((bool) j.contains(jp), s.find(p) != Str::npos, "contains");
            const CharSequence &cs = jp;
            c.eq((bool) j.contains(cs), s.find(p) != Str::npos, "contains(CharSequence)");
        }
        OP("indexOf.char", ch, f);
        Str one(1, (char) ch);
        c.eq(j.indexOf(ch), specIndexOf(s, one, 0), "indexOf(char)");
        c.eq(j.indexOf(ch, f), specIndexOf(s, one, f), "indexOf(char,from)");
        OP("lastIndexOf.char", ch, f);
        c.eq(j.lastIndexOf(ch), specLastIndexOf(s, one, (int) s.size()), "lastIndexOf(char)");
        c.eq(j.lastIndexOf(ch, f), specLastIndexOf(s, one, f), "lastIndexOf(char,from)");
        OP("startsWith", p, f);
        c.eq((bool) j.startsWith(jp), s.compare(0, p.size(), p) == 0, "startsWith");
        bool sw = f >= 0 && f <= (int) s.size() - (int) p.size() && s.compare(f, p.size(), p) == 0;
        c.eq((bool) j.startsWith(jp, f), sw, "startsWith(offset)");
        c.eq((bool) j.endsWith(jp), s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0, "endsWith");
        int o2 = idx(c, p), len = (int) c.r.range(-1, (int) p.size() + 1);
        OP("regionMatches", f, p, o2, len);
        // both regions out of range is pinned (probe regionMatches_both_out_of_range)
        bool in1 = f >= 0 && len >= 0 && f + len <= (int) s.size(), in2 = o2 >= 0 && len >= 0 && o2 + len <= (int) p.size();
        if (!(in1 || in2)) continue;
        if (len == 0 && !(in1 && in2)) continue;
        c.eq((bool) j.regionMatches(f, jp, o2, len), specRegion(s, f, p, o2, len), "regionMatches");
        c.eq((bool) j.regionMatches(true, f, jp, o2, len), specRegion(asciiLow(s), f, asciiLow(p), o2, len), "regionMatches(ignoreCase)");
    }
    c.eq(N(j), s, "search-mutated-receiver");
}

WORKLOAD(borders, 4000, 100000) {
    Str t, p = bordered(c, t);
    OP("search", t, p);
    String j = J(t), jp = J(p);
    for (int f = -1; f <= (int) t.size() + 1; ++f) {
        c.eq(j.indexOf(jp, f), specIndexOf(t, p, f), "indexOf(String,from)");
        if (f < 0 || f >= (int) t.size() || f + p.size() <= t.size()) c.eq(j.lastIndexOf(jp, f), specLastIndexOf(t, p, f), "lastIndexOf(String,from)");
    }
    Array<String> parts = j.split(jp);
    Str back;
    for (int i = 0; i < parts.length; ++i) back += (i ? p : Str("")) + N(parts[i]);
    c.eq(back, t, "split-joins-back");
    c.eq(N(j.replace(static_cast<const CharSequence &>(jp), static_cast<const CharSequence &>(String("#")))).find(p), Str::npos, "replace-leaves-none");
    c.ev(parts.length > 1 ? "borders_found" : "borders_absent");
}

WORKLOAD(transform, 9000, 200000) {
    Str s = word(c);
    String j = J(s);
    c.log("s=" + esc(s, 400));
    for (int k = 0; k < 5; ++k) {
        Str p = piece(c, s), q = word(c, 12);
        int a = idx(c, s), b = idx(c, s);
        String jp = J(p), jq = J(q);
        OP("subString", a, b);
        bool ok = a >= 0 && b >= a && b <= (int) s.size();
        c.eq(N(j.subString(a, b)), ok ? s.substr(a, b - a) : Str(), "subString(begin,end)");
        c.eq(N(j.subString(a)), a >= 0 && a <= (int) s.size() ? s.substr(a) : Str(), "subString(begin)");
        OP("charAt", a);
        bool in = a >= 0 && a < (int) s.size();
        char got = 0;
        Str t = thrown([&] { got = j.charAt(a); });
        c.eq(t, Str(in ? "" : "StringIndexOutOfBoundsException"), "charAt-exception");
        if (in) { c.eq(got, s[a], "charAt"); const String &cj = j; c.eq(cj[a], s[a], "operator[]"); }
        String rest;
        t = thrown([&] { rest = j.getStringFromIndex(a); });
        c.eq(t, Str(in ? "" : "StringIndexOutOfBoundsException"), "getStringFromIndex-exception");
        if (in) c.eq(N(rest), s.substr(a), "getStringFromIndex");
        OP("replace", p, q);
        const CharSequence &cp = jp; const CharSequence &cq = jq;
        c.eq(N(j.replace(cp, cq)), specReplace(s, p, q), "replace");
        c.eq(N(j.replaceAll(jp, jq)), specReplace(s, p, q), "replaceAll");
        if (!p.empty()) {
            OP("replaceFirst", p, q);
            Str e = s; size_t f = s.find(p); if (f != Str::npos) e.replace(f, p.size(), q);
            c.eq(N(j.replaceFirst(jp, jq)), e, "replaceFirst");
            OP("split", p);
            std::vector<Str> sp = specSplit(s, p);
            c.eq(VS(j.split(jp)), sp, "split");
            int lim = (int) c.r.range(-1, (int) sp.size() + 2);
            OP("split.limit", p, lim);
            std::vector<Str> sl = sp;
            if (lim > 0 && lim < (int) sp.size()) {
                sl.assign(sp.begin(), sp.begin() + lim - 1);
                Str tail;
                for (int i = lim - 1; i < (int) sp.size(); ++i) tail += (i > lim - 1 ? p : Str()) + sp[i];
                sl.push_back(tail);
            }
            c.eq(VS(j.split(jp, lim)), sl, "split(limit)");
        }
        char o = s.empty() ? 'a' : s[c.r.upto((int) s.size())], n = (char) c.r.range(1, 127);
        OP("replace.char", o, n);
        Str e = s; for (auto &ch : e) if (ch == o) ch = n;
        c.eq(N(j.replace(o, n)), e, "replace(char)");
        OP("concat", q);
        c.eq(N(j.concat(jq)), s + q, "concat");
        c.eq(N(j + jq), s + q, "operator+");
        const String cj2 = j;
        c.eq(N(cj2 + jq), s + q, "operator+(const)");
        OP("trim", s.size() < 40 ? s : Str("..."));
        c.eq(N(j.trim()), specTrim(s), "trim");
        c.eq(N((jq + j + jq).trim()), specTrim(q + s + q), "trim");
    }
    c.eq(N(j), s, "transform-mutated-receiver");
    c.eq(N(j.clone()), s, "clone");
    c.eq(N(j.toString()), s, "toString");
    c.eq((bool) j.isEmpty(), s.empty(), "isEmpty");
    // arrays
    std::vector<char> chars(s.begin(), s.end());
    std::vector<unsigned char> bs(s.begin(), s.end());
    c.eq(V(j.toCharArray()), chars, "toCharArray");
    c.eq(V(j.getBytes()), bs, "getBytes");
    c.eq(N(String(A(chars))), s, "String(Array<char>)");
    c.eq(N(String(A(bs))), s, "String(Array<byte>)");
    c.eq(N(String::fromCharArray(A(chars))), s, "fromCharArray");
    c.eq(N(String::copyValueOf(A(chars))), s, "copyValueOf");
    int off = idx(c, s), cnt = (int) c.r.range(-2, (int) s.size() + 2);
    OP("String(Array,off,cnt)", off, cnt);
    bool okr = off >= 0 && cnt >= 0 && off + cnt <= (int) s.size();
    String part;
    Str t = thrown([&] { part = String(A(chars), off, cnt); });
    c.eq(t, Str(okr ? "" : "StringIndexOutOfBoundsException"), "String(Array<char>,off,cnt)-exception");
    if (okr) c.eq(N(part), s.substr(off, cnt), "String(Array<char>,off,cnt)");
    t = thrown([&] { part = String(A(bs), off, cnt); });
    c.eq(t, Str(okr ? "" : "StringIndexOutOfBoundsException"), "String(Array<byte>,off,cnt)-exception");
    if (okr) c.eq(N(part), s.substr(off, cnt), "String(Array<byte>,off,cnt)");
    if (okr) c.eq(N(String::copyValueOf(A(chars), off, cnt)), s.substr(off, cnt), "copyValueOf(off,cnt)");
    // getChars
    int b = idx(c, s), e = idx(c, s), d = (int) c.r.range(-1, 6);
    Array<char> dst((long) c.r.upto((int) s.size() + 8));
    for (int i = 0; i < dst.length; ++i) dst[i] = '#';
    std::vector<char> before = V(dst);
    OP("getChars", b, e, dst.length, d);
    bool okg = b >= 0 && e >= b && e <= (int) s.size() && d >= 0 && d + (e - b) <= dst.length;
    t = thrown([&] { j.getChars(b, e, dst, d); });
    c.eq(t, Str(okg ? "" : "StringIndexOutOfBoundsException"), "getChars-exception");
    if (okg) for (int i = b; i < e; ++i) before[d + i - b] = s[i];
    c.eq(V(dst), before, "getChars");
    // join
    std::vector<String> parts; std::vector<Str> sp;
    for (int i = 0; i < 3; ++i) { sp.push_back(word(c, 20)); parts.push_back(J(sp.back())); }
    Str del = word(c, 3);
    String jd = J(del);
    OP("join", del);
    c.eq(N(String::join(jd, parts[0], parts[1], parts[2])), sp[0] + del + sp[1] + del + sp[2], "join");
    c.eq(N(String::join(jd, parts[0])), sp[0], "join(1)");
}

WORKLOAD(order, 9000, 200000) {
    Str a = word(c, 60), b;
    switch (c.r.upto(4)) {
        case 0: b = word(c, 60); break;
        case 1: b = a; break;
        case 2: b = a; if (!b.empty()) b[c.r.upto((int) b.size())] ^= (char) (1 << c.r.upto(8)); break;
        default: b = a.substr(0, c.r.upto((int) a.size() + 1)); break;
    }
    if (c.r.chance(30)) for (auto &ch : b) if (isalpha((unsigned char) ch) && c.r.chance(50)) ch ^= 0x20;
    Str d = c.r.chance(50) ? word(c, 60) : b;
    String ja = J(a), jb = J(b), jd = J(d);
    OP("compare", a, b);
    int e = sgn(a.compare(b));
    c.eq((bool) ja.equals(jb), a == b, "equals");
    c.eq((bool) (ja == jb), a == b, "operator==");
    c.eq((bool) (ja != jb), a != b, "operator!=");
    c.eq(sgn(ja.compareTo(jb)), e, "compareTo");
    c.eq(sgn(jb.compareTo(ja)), -e, "compareTo-antisymmetric");
    c.eq((bool) (ja < jb), e < 0, "operator<");
    c.eq((bool) (ja > jb), e > 0, "operator>");
    c.eq((bool) (ja <= jb), e <= 0, "operator<=");
    c.eq((bool) (ja >= jb), e >= 0, "operator>=");
    const CharSequence &cs = jb;
    c.eq((bool) ja.contentEquals(cs), a == b, "contentEquals");
    c.eq(sgn(ja.compareToIgnoreCase(jb)), sgn(asciiLow(a).compare(asciiLow(b))), "compareToIgnoreCase");
    c.eq((bool) ja.equalsIgnoreCase(jb), asciiLow(a) == asciiLow(b), "equalsIgnoreCase");
    c.eq((int) ja.hashCode(), specHash(a), "hashCode");
    c.eq((int) ja.hashCode(), specHash(a), "hashCode-again");
    if (a == b) { c.eq(ja.hashCode(), jb.hashCode(), "equal-but-different-hash"); c.eq(std::hash<String>()(ja), std::hash<String>()(jb), "equal-but-different-std-hash"); }
    // transitivity on the triple
    if (ja.compareTo(jb) <= 0 && jb.compareTo(jd) <= 0) c.check(ja.compareTo(jd) <= 0, "compareTo-transitive", show(a) + show(b) + show(d));
}

// mutation through += and [] and assignment, hashing in between
WORKLOAD(mutate, 6000, 150000) {
    Str m = word(c, 30);
    String j = J(m);
    int n = 3 + c.r.upto(20);
    for (int k = 0; k < n; ++k) {
        switch (c.r.upto(7)) {
            case 0: { Str w = word(c, 40); OP("+=String", w); j += J(w); m += w; break; }
            case 1: { Str w = word(c, 40); w = w.substr(0, w.find('\0')); OP("+=chars", w); j += w.c_str(); m += w; break; }
            case 2: { char ch = (char) c.r.range(1, 127); OP("+=char", ch); j += ch; m += ch; break; }
            case 3: if (!m.empty()) { int i = c.r.upto((int) m.size()); char ch = (char) c.r.range(1, 127); OP("[]=", i, ch); j[i] = ch; m[i] = ch; } break;
            case 4: { Str w = word(c, 40); OP("=", w); j = J(w); m = w; break; }
            case 5: { OP("self", 0); j = j; if (m.size() < 2000) { j += j; m += m; } break; }
            default: { OP("copy", 0); String k2 = j; String k3(k2); k2 += 'x'; c.eq(N(k3), m, "copy-aliases"); c.eq(N(j), m, "copy-aliases"); break; }
        }
        c.eq(N(j), m, "content-after-mutation");
        c.eq(j.length(), (int) m.size(), "length-after-mutation");
        if (c.r.chance(60)) { OP("hashCode", (int) m.size()); c.eq((int) j.hashCode(), specHash(m), "hashCode-after-mutation"); c.check(j == J(m) && j.hashCode() == J(m).hashCode(), "equal-strings-hash-differently", show(m)); }
    }
}

// case mapping: ASCII and the Latin/Greek/Cyrillic pairs of valid UTF-8
WORKLOAD(casing, 3000, 60000) {
    static const std::vector<std::pair<Str, Str>> pairs = {{"a", "A"}, {"z", "Z"}, {"m", "M"}, {"\xc3\xa9", "\xc3\x89"}, {"\xc4\x83", "\xc4\x82"},
        {"\xe1\xba\xa3", "\xe1\xba\xa2"}, {"\xce\xb1", "\xce\x91"}, {"\xd0\xb6", "\xd0\x96"}, {"1", "1"}, {" ", " "}, {"\xe4\xb8\xad", "\xe4\xb8\xad"}, {"_", "_"}, {"[", "["}, {"{", "{"}, {"@", "@"}, {"`", "`"}};
    Str lo, up, mixd;
    int n = c.r.size(200);
    bool ascii = c.r.chance(50);
    for (int i = 0; i < n; ++i) {
        Str l, u;
        if (ascii) { char ch = (char) c.r.range(1, 126); Str t(1, ch); l = asciiLow(t); u = t; if (ch >= 'a' && ch <= 'z') u[0] -= 32; }
        else { auto &p = c.r.pick(pairs); l = p.first; u = p.second; }
        lo += l; up += u; mixd += c.r.chance(50) ? l : u;
        if (!ascii || true) {}
    }
    OP("case", mixd);
    String j = J(mixd);
    c.eq(N(j.toLowerCase()), lo, "toLowerCase");
    c.eq(N(j.toUpperCase()), up, "toUpperCase");
    c.eq(N(j.toUpperCase().toLowerCase()), lo, "toUpper.toLower");
    c.eq(N(j), mixd, "case-mutated-receiver");
}
PROBE(lastIndexOf_from_past_tail) { return String("ti ab").lastIndexOf("ab", 4) == 3; }
PROBE(regionMatches_both_out_of_range) { return !String("abc").regionMatches(1, "xyz", 1, 9); }
MON_MAIN
