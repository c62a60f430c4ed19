// S03: StringBuilder against a std::string model over random edit histories.
#include "lib.hpp"
using mon::Ctx;
typedef StringBuilder SB;

static Str cut(const Str &s) { return s.substr(0, s.find('\0')); }     // text views end at the first NUL (asserted by the repository's tests)
static bool oob(const Str &t) { return t == "IndexOutOfBoundsException" || t == "StringIndexOutOfBoundsException"; }

static Str word(Ctx &c, int max = 60) {
    static const std::vector<Str> alph = {"ab", "a", "abc", "aA \t", "abcdefghijklmnopqrstuvwxyz0123456789", "\xc3\xa9z\xff\x80"};
    Str al = c.r.pick(alph);
    int n = c.r.size(max);
    Str w = c.r.bytes(n, al);
    if (c.r.chance(25)) { Str u = c.r.bytes(1 + c.r.upto(3), al); w.clear(); while ((int) w.size() < n) w += u; }
    return w;
}
static int pos(Ctx &c, int n) {
    switch (c.r.upto(8)) {
        case 0: return -1 - c.r.upto(2);
        case 1: return n + c.r.upto(3);
        case 2: return n;
        case 3: return n - 1;
        case 4: return 0;
        default: return c.r.upto(n + 1);
    }
}
static int extreme(Ctx &c, int v) { return c.r.chance(2) ? 2147483647 : c.r.chance(1) ? -2147483647 - 1 : v; }
static int specLast(const Str &t, const Str &p, int from) {
    // last match lying inside [0, from]
    if (from < 0) return -1;
    if (p.empty()) return std::min(from, (int) t.size());
    int hi = std::min(from + 1, (int) t.size()) - (int) p.size();
    for (int i = hi; i >= 0; --i) if (t.compare((size_t) i, p.size(), p) == 0) return i;
    return -1;
}
static int specFirst(const Str &t, const Str &p, int from) {
    if (from > (int) t.size()) return p.empty() ? (int) t.size() : -1;
    if (from < 0) from = 0;
    if (p.empty()) return from;
    size_t f = t.find(p, (size_t) from);
    return f == Str::npos ? -1 : (int) f;
}


struct Sub { SB b; Str m; };
static void full(Ctx &c, const SB &b, const Str &m, const char *why) {
    c.eq(b.length(), (int) m.size(), Str("length:") + why);
    c.check(b.capacity() >= b.length(), Str("capacity<length:") + why, "");
    c.eq(N(b.toString()), cut(m), Str("toString:") + why);
    for (int i = 0; i < (int) m.size(); ++i) if (b.charAt(i) != m[i]) c.eq(b.charAt(i), m[i], Str("charAt:") + why);
}

static void step(Ctx &c, SB &b, Str &m) {
    int n = (int) m.size();
    auto edit = [&](const char *name, bool ok, const Str &next, std::function<SB &()> f) {
        SB *ret = nullptr;
        Str t = thrown([&] { ret = &f(); });
        if (ok) {
            c.eq(t, Str(""), Str(name) + ".unexpected-throw");
            c.check(ret == &b, Str(name) + ".returns-other-object", "");
            m = next;
        } else c.check(oob(t), Str(name) + ".must-throw", "threw '" + t + "'");
    };
    auto ins = [&](int at, const Str &s) { return (at >= 0 && at <= n) ? m.substr(0, at) + s + m.substr(at) : m; };
    switch (c.r.upto(30)) {
        case 0: { Str s = word(c); OP("append(String)", s); edit("append", true, m + s, [&]() -> SB & { return b.append(J(s)); }); break; }
        case 1: { Str s = word(c, 300); OP("append(String)", s); edit("append", true, m + s, [&]() -> SB & { return b.append(J(s)); }); break; }
        case 2: { char ch = (char) (1 + c.r.upto(255)); OP("append(char)", ch); edit("append(char)", true, m + ch, [&]() -> SB & { return c.r.chance(50) ? b.append(ch) : b.append(Character(ch)); }); break; }
        case 3: { int v = c.r.i32(); OP("append(int)", v); edit("append(int)", true, m + std::to_string(v), [&]() -> SB & { return c.r.chance(50) ? b.append(v) : b.append(Integer(v)); }); break; }
        case 4: { long v = c.r.i64(); OP("append(long)", v); edit("append(long)", true, m + std::to_string(v), [&]() -> SB & { return c.r.chance(50) ? b.append(v) : b.append(Long(v)); }); break; }
        case 5: { bool v = c.r.chance(50); OP("append(bool)", v); edit("append(bool)", true, m + (v ? "true" : "false"), [&]() -> SB & { return c.r.chance(50) ? b.append(v) : b.append(Boolean(v)); }); break; }
        case 6: {
            double v = (double) c.r.range(-4000, 4000) / 16;
            if (c.r.chance(50)) { Str s = N(Double(v).toString()); OP("append(double)", v); edit("append(double)", true, m + s, [&]() -> SB & { return c.r.chance(50) ? b.append(v) : b.append(Double(v)); }); }
            else { float f = (float) v; Str s = N(Float(f).toString()); OP("append(float)", f); edit("append(float)", true, m + s, [&]() -> SB & { return c.r.chance(50) ? b.append(f) : b.append(Float(f)); }); }
            break; }
        case 7: { Str s = word(c); std::vector<char> v(s.begin(), s.end()); OP("append(Array<char>)", s); edit("append(array)", true, m + s, [&]() -> SB & { return b.append(A(v)); }); break; }
        case 8: { Str s = word(c, 20); Array<Character> a; for (char ch : s) a.push(Character(ch)); OP("append(Array<Character>)", s); edit("append(arrayC)", true, m + s, [&]() -> SB & { return b.append(a); }); break; }
        case 9: {   // slices of arrays
            Str s = word(c, 20); int o = extreme(c, pos(c, (int) s.size())), l = extreme(c, pos(c, (int) s.size()));
            bool ok = o >= 0 && l >= 0 && (long) o + l <= (long) s.size();
            int at = c.r.chance(50) ? n : pos(c, n);
            bool okAt = at >= 0 && at <= n;
            std::vector<char> v(s.begin(), s.end()); Array<char> a = A(v); Array<Character> ac; for (char ch : s) ac.push(Character(ch));
            Str piece = ok ? s.substr(o, l) : "";
            if (c.r.chance(40)) { OP("append(slice)", s, o, l); edit("append(slice)", ok, m + piece, [&]() -> SB & { return c.r.chance(50) ? b.append(a, o, l) : b.append(ac, o, l); }); }
            else { OP("insert(slice)", at, s, o, l); edit("insert(slice)", ok && okAt, ins(at, piece), [&]() -> SB & { return c.r.chance(50) ? b.insert(at, a, o, l) : b.insert(at, ac, o, l); }); }
            break; }
        case 10: {  // CharSequence, possibly the builder itself
            bool self = c.r.chance(25);
            Str s = self ? cut(m) : word(c, 30);
            String js = J(s);
            const CharSequence &cs = self ? (const CharSequence &) b : (const CharSequence &) js;
            if (c.r.chance(40)) { OP("append(CharSequence)", self, s); edit("append(seq)", true, m + s, [&]() -> SB & { return b.append(cs); }); }
            else { int x = extreme(c, pos(c, (int) s.size())), y = extreme(c, pos(c, (int) s.size())); bool ok = x >= 0 && x <= y && y <= (int) s.size();
                if (c.r.chance(50)) { OP("append(CharSequence,range)", self, s, x, y); edit("append(seq,range)", ok, m + (ok ? s.substr(x, y - x) : ""), [&]() -> SB & { return b.append(cs, x, y); }); }
                else { int at = extreme(c, pos(c, n)); bool oka = at >= 0 && at <= n; OP("insert(CharSequence,range)", self, at, s, x, y);
                    edit("insert(seq,range)", ok && oka, ok ? ins(at, s.substr(x, y - x)) : m, [&]() -> SB & { return b.insert(at, cs, x, y); }); } }
            break; }
        case 11: case 12: { int at = extreme(c, pos(c, n)); Str s = word(c, 40); OP("insert(String)", at, s); edit("insert(String)", at >= 0 && at <= n, ins(at, s), [&]() -> SB & { return b.insert(at, J(s)); }); break; }
        case 13: {
            int at = extreme(c, pos(c, n)); bool ok = at >= 0 && at <= n;
            switch (c.r.upto(8)) {
                case 0: { char v = (char) (1 + c.r.upto(255)); OP("insert(char)", at, v); edit("insert(char)", ok, ins(at, Str(1, v)), [&]() -> SB & { return c.r.chance(50) ? b.insert(at, v) : b.insert(at, Character(v)); }); break; }
                case 1: { int v = c.r.i32(); OP("insert(int)", at, v); edit("insert(int)", ok, ins(at, std::to_string(v)), [&]() -> SB & { return c.r.chance(50) ? b.insert(at, v) : b.insert(at, Integer(v)); }); break; }
                case 2: { long v = c.r.i64(); OP("insert(long)", at, v); edit("insert(long)", ok, ins(at, std::to_string(v)), [&]() -> SB & { return c.r.chance(50) ? b.insert(at, v) : b.insert(at, Long(v)); }); break; }
                case 3: { bool v = c.r.chance(50); OP("insert(bool)", at, v); edit("insert(bool)", ok, ins(at, v ? "true" : "false"), [&]() -> SB & { return c.r.chance(50) ? b.insert(at, v) : b.insert(at, Boolean(v)); }); break; }
                case 4: { double v = (double) c.r.range(-4000, 4000) / 16; Str s = N(Double(v).toString()); OP("insert(double)", at, v); edit("insert(double)", ok, ins(at, s), [&]() -> SB & { return c.r.chance(50) ? b.insert(at, v) : b.insert(at, Double(v)); }); break; }
                case 5: { float v = (float) c.r.range(-4000, 4000) / 16; Str s = N(Float(v).toString()); OP("insert(float)", at, v); edit("insert(float)", ok, ins(at, s), [&]() -> SB & { return c.r.chance(50) ? b.insert(at, v) : b.insert(at, Float(v)); }); break; }
                case 6: { Str s = word(c, 20); std::vector<char> v(s.begin(), s.end()); OP("insert(Array)", at, s); edit("insert(array)", ok, ins(at, s), [&]() -> SB & { return b.insert(at, A(v)); }); break; }
                default: { Str s = word(c, 20); String js = J(s); OP("insert(CharSequence)", at, s); edit("insert(seq)", ok, ins(at, s), [&]() -> SB & { return b.insert(at, (const CharSequence &) js); }); break; }
            }
            break; }
        case 14: case 15: case 16: {
            int s = extreme(c, pos(c, n)), e = extreme(c, pos(c, n));
            if (c.r.chance(60) && s > e) std::swap(s, e);
            int ee = std::min(e, n); bool ok = s >= 0 && s <= ee;
            OP("deleteRange", s, e);
            edit("deleteRange", ok, ok ? m.substr(0, s) + m.substr(ee) : m, [&]() -> SB & { return b.deleteRange(s, e); });
            break; }
        case 17: { int i = extreme(c, pos(c, n)); bool ok = i >= 0 && i < n; OP("deleteCharAt", i); edit("deleteCharAt", ok, ok ? m.substr(0, i) + m.substr(i + 1) : m, [&]() -> SB & { return b.deleteCharAt(i); }); break; }
        case 18: case 19: {
            int s = extreme(c, pos(c, n)), e = extreme(c, pos(c, n));
            if (c.r.chance(60) && s > e) std::swap(s, e);
            Str w = word(c, 40);
            bool ok = s >= 0 && s <= n && s <= e; int ee = std::min(e, n);
            OP("replace", s, e, w);
            edit("replace", ok, ok ? m.substr(0, s) + w + m.substr(ee) : m, [&]() -> SB & { return b.replace(s, e, J(w)); });
            break; }
        case 20: { OP("reverse", n); edit("reverse", true, Str(m.rbegin(), m.rend()), [&]() -> SB & { return b.reverse(); }); break; }
        case 21: { int i = extreme(c, pos(c, n)); char v = (char) (1 + c.r.upto(255)); bool ok = i >= 0 && i < n; OP("setCharAt", i, v);
            edit("setCharAt", ok, [&] { Str x = m; if (ok) x[i] = v; return x; }(), [&]() -> SB & { if (c.r.chance(50)) b.setCharAt(i, v); else b.setCharAt(i, Character(v)); return b; }); break; }
        case 22: { int l = c.r.chance(70) ? c.r.upto(n + 1) : c.r.chance(15) ? -1 - c.r.upto(3) : c.r.upto(n + 40); OP("setLength", l);
            edit("setLength", l >= 0, [&] { Str x = m; if (l >= 0) x.resize((size_t) l, '\0'); return x; }(), [&]() -> SB & { b.setLength(l); return b; }); break; }
        case 23: { int l = (int) c.r.range(-5, 2 * n + 50); int before = b.capacity(); OP("ensureCapacity", l); b.ensureCapacity(l);
            c.check(l <= before ? b.capacity() == before : b.capacity() >= l && b.capacity() >= 2 * before + 2, "ensureCapacity", show(before) + " -> " + show(b.capacity()) + " for " + show(l)); break; }
        case 24: { OP("trimToSize", n); b.trimToSize(); c.eq(b.capacity(), n, "trimToSize.capacity"); break; }
        case 25: case 26: {
            Str t = cut(m), p = c.r.chance(60) && !t.empty() ? t.substr(c.r.upto((int) t.size()), 1 + c.r.upto(c.r.chance(30) ? 40 : 4)) : word(c, 5);
            if (c.r.chance(15) && !p.empty()) p[p.size() - 1] = p.back() == 'a' ? 'b' : 'a';
            int f = extreme(c, pos(c, (int) t.size()));
            OP("search", t, p, f);
            c.eq(b.indexOf(J(p)), specFirst(t, p, 0), "indexOf");
            c.eq(b.indexOf(J(p), f), specFirst(t, p, f), "indexOf(from)");
            if (!(p.empty() && t.size() != m.size())) c.eq(b.lastIndexOf(J(p)), specLast(t, p, (int) t.size()), "lastIndexOf");
            if (f != 2147483647) c.eq(b.lastIndexOf(J(p), f), specLast(t, p, f), "lastIndexOf(from)");
            break; }
        case 27: {
            int s = extreme(c, pos(c, n)), e = extreme(c, pos(c, n));
            if (c.r.chance(60) && s > e) std::swap(s, e);
            OP("substring", s, e);
            Str got; Str t = thrown([&] { got = N(b.substring(s, e)); });
            if (s >= 0 && s <= e && e <= n) { c.eq(t, Str(""), "substring.throws"); c.eq(got, cut(m.substr(s, e - s)), "substring"); }
            else c.check(oob(t), "substring.must-throw", t);
            t = thrown([&] { got = N(b.substring(s)); });
            if (s >= 0 && s <= n) { c.eq(t, Str(""), "substring1.throws"); c.eq(got, cut(m.substr(s)), "substring1"); }
            else c.check(oob(t), "substring1.must-throw", t);
            break; }
        case 28: {
            int i = extreme(c, pos(c, n)); OP("charAt", i);
            char ch = 0; Str t = thrown([&] { ch = b.charAt(i); });
            if (i >= 0 && i < n) { c.eq(t, Str(""), "charAt.throws"); c.eq(ch, m[i], "charAt"); } else c.check(oob(t), "charAt.must-throw", t);
            int cp = 0; t = thrown([&] { cp = b.codePointAt(i); });
            if (i >= 0 && i < n) { c.eq(t, Str(""), "codePointAt.throws"); c.eq((char) cp, m[i], "codePointAt"); } else c.check(oob(t), "codePointAt.must-throw", t);
            if (i != -2147483647 - 1) { t = thrown([&] { cp = b.codePointBefore(i); });
            if (i >= 1 && i <= n) { c.eq(t, Str(""), "codePointBefore.throws"); c.eq((char) cp, m[i - 1], "codePointBefore"); } else c.check(oob(t), "codePointBefore.must-throw", t); }
            int e = pos(c, n); t = thrown([&] { cp = b.codePointCount(i, e); });
            if (i >= 0 && i <= e && e <= n) { c.eq(t, Str(""), "codePointCount.throws"); c.eq(cp, e - i, "codePointCount"); } else c.check(oob(t), "codePointCount.must-throw", t);
            break; }
        default: {
            OP("append(list)", n);
            edit("append(list)", true, m + "xyz", [&]() -> SB & { return b.append({'x', 'y', 'z'}); });
        }
    }
}

WORKLOAD(history, 9000, 150000) {
    Str m;
    SB *b = nullptr;
    switch (c.r.upto(5)) {
        case 0: b = new SB(); OP("StringBuilder"); break;
        case 1: { int cap = c.r.chance(15) ? -1 - c.r.upto(3) : c.r.upto(20); OP("StringBuilder(capacity)", cap);
            Str t = thrown([&] { b = new SB(cap); });
            if (cap < 0) { c.eq(t, Str("NegativeArraySizeException"), "capacity<0"); return; }
            c.eq(t, Str(""), "ctor"); break; }
        case 2: { m = word(c, 100); OP("StringBuilder(String)", m); b = new SB(J(m)); break; }
        case 3: { m = word(c, 100); OP("StringBuilder(CharSequence)", m); String j = J(m); const CharSequence &cs = j; b = new SB(cs); break; }
        default: { m = "abc"; OP("StringBuilder(list)"); b = new SB({'a', 'b', 'c'}); break; }
    }
    std::unique_ptr<SB> own(b);
    full(c, *b, m, "constructed");
    std::vector<std::pair<std::unique_ptr<SB>, Str>> others;         // copies must stay independent
    int steps = 1 + c.r.size(60);
    for (int i = 0; i < steps; ++i) {
        if (m.size() > 4000) { OP("setLength", 10); b->setLength(10); m.resize(10); }
        if (c.r.chance(4) && others.size() < 4) { OP("copy"); others.emplace_back(std::unique_ptr<SB>(new SB(*b)), m); full(c, *others.back().first, m, "copy"); }
        else if (c.r.chance(4) && !others.empty()) {
            auto &o = others[c.r.upto((int) others.size())];
            if (c.r.chance(50)) { OP("assign-from"); *b = *o.first; m = o.second; } else { OP("assign-to"); *o.first = *b; o.second = m; }
        } else if (c.r.chance(1)) { OP("self-assign"); SB &same = *b; *b = same; }
        else {
            bool toOther = !others.empty() && c.r.chance(25);
            if (toOther) { auto &o = others[c.r.upto((int) others.size())]; step(c, *o.first, o.second); full(c, *o.first, o.second, "after-step"); }
            else step(c, *b, m);
        }
        full(c, *b, m, "after-step");
        if (c.r.chance(10)) for (auto &o : others) full(c, *o.first, o.second, "other");
    }
    for (auto &o : others) full(c, *o.first, o.second, "other-final");
    c.eq(N(String(*b)), cut(m), "String(StringBuilder)");
}

WORKLOAD(borders, 6000, 150000) {
    Str t, p = bordered(c, t);
    OP("search", t, p);
    SB b(J(t));
    bool hit = false;
    for (int f = -1; f <= (int) t.size() + 1; ++f) {
        c.eq(b.indexOf(J(p), f), specFirst(t, p, f), "indexOf(from)");
        c.eq(b.lastIndexOf(J(p), f), specLast(t, p, f), "lastIndexOf(from)");
        hit |= f > 0 && t.find(p, (size_t) f) != Str::npos;
    }
    c.ev(hit ? "borders_found" : "borders_absent");
}
int main(int argc, char **argv) { return mon::runMain(argc, argv); }
