// A01: Arrays algorithms and the Array type against their element-wise definitions.
#include "tok.hpp"
using mon::Ctx;
using Java::Util::Arrays;
using Java::Lang::Integer; using Java::Lang::String;

// content generator: sorted, reversed, constant, organ-pipe, few values, random
static std::vector<int> shape(Ctx &c, int n, int lo, int hi) {
    std::vector<int> v;
    int kind = c.r.upto(7), k = lo + c.r.upto(hi - lo + 1);
    for (int i = 0; i < n; ++i) {
        int x;
        switch (kind) {
            case 0: x = lo + (int) ((long) (hi - lo) * i / std::max(1, n)); break;
            case 1: x = hi - (int) ((long) (hi - lo) * i / std::max(1, n)); break;
            case 2: x = k; break;
            case 3: x = lo + std::min(i, n - 1 - i) % (hi - lo + 1); break;
            case 4: x = lo + c.r.upto(3) % (hi - lo + 1); break;
            default: x = (int) c.r.range(lo, hi);
        }
        v.push_back(x);
    }
    return v;
}
template<class T> struct Ty;
#define PRIM(T, LO, HI, F) template<> struct Ty<T> { static const bool prim = true; static int lo() { return LO; } static int hi() { return HI; } static T mk(int i) { return (T) (F); } static const char *name() { return #T; } };
PRIM(byte, 0, 255, i)
PRIM(char, -128, 127, i)
PRIM(short, -32768, 32767, i)
PRIM(int, -1000000, 1000000, i)
PRIM(long, -1000000, 1000000, (long) i * 4294967311L)
PRIM(float, -1000, 1000, (float) i / 8)
PRIM(double, -1000000, 1000000, (double) i / 7)
template<> struct Ty<Integer> { static const bool prim = false; static int lo() { return -500; } static int hi() { return 500; } static Integer mk(int i) { return Integer(i); } static const char *name() { return "Integer"; } };
template<> struct Ty<String> { static const bool prim = false; static int lo() { return 100; } static int hi() { return 999; } static String mk(int i) { return String("s" + std::to_string(i)); } static const char *name() { return "String"; } };
template<> struct Ty<Tok> { static const bool prim = false; static int lo() { return -500; } static int hi() { return 500; } static Tok mk(int i) { return Tok(i); } static const char *name() { return "Tok"; } };

// mk is strictly increasing, so the order of ids is the order of elements
template<class T> static bool same(const T &a, const T &b) { return !(a < b) && !(b < a); }
template<class T> struct Buf {                       // exact-size heap block, so that ASan sees any overrun
    T *p; int n;
    explicit Buf(const std::vector<int> &v) : p(new T[v.size()]), n((int) v.size()) { for (int i = 0; i < n; ++i) p[i] = Ty<T>::mk(v[i]); }
    ~Buf() { delete[] p; }
};
template<class T> static Array<T> arr(const std::vector<int> &v) { Array<T> a; for (int x : v) a.push(Ty<T>::mk(x)); return a; }
template<class T, class G> static void expect(Ctx &c, const std::vector<int> &m, G get, const char *what) {
    for (size_t i = 0; i < m.size(); ++i)
        if (!same<T>(get((int) i), Ty<T>::mk(m[i]))) c.fail(Str(what), Str(Ty<T>::name()) + " element " + show(i) + " of " + show(m.size()) + " is wrong; expected model value " + show(m[i]));
}
template<class T> struct PrimSort { static bool run(Ctx &, T *, int, int, bool) { return false; } };
#define PS(T, WHOLE, RANGE) template<> struct PrimSort<T> { static bool run(Ctx &, T *p, int a, int b, bool whole) { if (whole) { WHOLE; } else { RANGE; } return true; } };
PS(byte, Arrays::sort(p, b + 1), Arrays::sortByIndex(p, a, b))
PS(char, Arrays::sort(p, b + 1), Arrays::sortByIndex(p, a, b))
PS(double, Arrays::sort(p, b + 1), Arrays::sortByIndex(p, a, b))
PS(float, Arrays::sort(p, b + 1), Arrays::sortByIndex(p, a, b))
PS(int, Arrays::sort(p, b + 1), Arrays::sortByIndexArraySize(p, a, b, 0))
PS(long, Arrays::sortByArraySize(p, b + 1), Arrays::sortByIndex(p, a, b))
PS(short, Arrays::sortByArraySize(p, b + 1), Arrays::sortByIndexArraySize(p, a, b, (short) 0))

template<class T> static void sorting(Ctx &c) {
    long before = Tok::live();
    {
        int n = c.r.chance(8) ? c.r.upto(700) : c.r.size(60);
        std::vector<int> m = shape(c, n, Ty<T>::lo(), Ty<T>::hi());
        Buf<T> b(m);
        Array<T> a = arr<T>(m);
        bool whole = c.r.chance(35) || n == 0;
        int from = whole ? 0 : c.r.upto(n), to = whole ? n - 1 : from + c.r.upto(n - from);
        OP("sort", Str(Ty<T>::name()), m, from, to);
        if (n > 300) c.ev("big_sorts");
        std::vector<int> w = m;
        std::sort(w.begin() + from, w.begin() + (to + 1));
        if (!(c.r.chance(50) && PrimSort<T>::run(c, b.p, from, to, whole))) { if (whole) Arrays::sort(b.p, n); else Arrays::sort(b.p, from, to); }
        if (whole) Arrays::sort(&a, n); else Arrays::sort(&a, from, to);
        expect<T>(c, w, [&](int i) { return b.p[i]; }, "sort(pointer)");
        c.eq((int) a.length, n, "sort-length");
        expect<T>(c, w, [&](int i) { return a.get(i); }, "sort(Array)");
        if (from > 0 || to < n - 1) c.ev("range_sorts");
    }
    tokBalance(c, before, "sort");
}
template<class T> struct PrimSearch { static bool byIndex(T *, int, int, T, int &) { return false; } };
#define PB(T) template<> struct PrimSearch<T> { static bool byIndex(T *p, int a, int b, T k, int &r) { r = Arrays::binarySearchByIndex(p, a, b, k); return true; } };
PB(char) PB(byte) PB(short) PB(int) PB(long) PB(float) PB(double)
template<class T> static void searching(Ctx &c) {
    long before = Tok::live();
    {
        int n = c.r.chance(30) ? c.r.upto(6) : c.r.size(80);
        std::vector<int> m = shape(c, n, Ty<T>::lo(), Ty<T>::hi());
        if (c.r.chance(30)) for (int &x : m) x = Ty<T>::lo() + (x - Ty<T>::lo()) % 8;       // duplicates
        std::sort(m.begin(), m.end());
        Buf<T> b(m);
        Array<T> a = arr<T>(m);
        for (int q = 0; q < 6; ++q) {
            int key = n && c.r.chance(70) ? m[c.r.upto(n)] : (int) c.r.range(Ty<T>::lo(), Ty<T>::hi());
            int from = 0, to = n - 1;
            bool range = n && c.r.chance(50);
            if (range) { from = c.r.upto(n); to = from + c.r.upto(n - from); }
            int want = -1;
            for (int i = to; i >= from; --i) if (m[i] == key) want = i;
            OP("binarySearch", Str(Ty<T>::name()), m, from, to, key);
            c.ev(want >= 0 ? "keys_found" : "keys_absent");
            if (to - from == 0) c.ev("single_element_ranges");
            T k = Ty<T>::mk(key);
            int r = 0;
            if (range) {
                c.eq(Arrays::binarySearch(b.p, from, to, k), want, "binarySearch(pointer,from,to)");
                c.eq(Arrays::binarySearch(a, from, to, k), want, "binarySearch(Array,from,to)");
                if (PrimSearch<T>::byIndex(b.p, from, to, k, r)) c.eq(r, want, "binarySearchByIndex");
            } else {
                c.eq(Arrays::binarySearchByKey(b.p, k, n), want, "binarySearchByKey");
                c.eq(Arrays::binarySearch(a, k, n), want, "binarySearch(Array)");
            }
        }
        if (c.r.chance(20)) { T k = Ty<T>::mk(Ty<T>::lo()); int x = 1 + c.r.upto(5); c.eq(Arrays::binarySearch(b.p, x, x - 1 - c.r.upto(3), k), -1, "binarySearch-reversed"); c.eq(Arrays::binarySearch(a, -x, 3, k), -1, "binarySearch-negative"); }
    }
    tokBalance(c, before, "binarySearch");
}
template<class T> static void copying(Ctx &c) {
    long before = Tok::live();
    {
        int n = c.r.size(40);
        std::vector<int> m = shape(c, n, Ty<T>::lo(), Ty<T>::hi());
        Array<T> a = arr<T>(m);
        int len = c.r.chance(10) ? -1 - c.r.upto(3) : c.r.upto(n + 12);
        OP("copyOf", Str(Ty<T>::name()), m, len);
        Array<T> r = Arrays::copyOf(a, len);
        c.eq((int) r.length, std::max(len, 0), "copyOf-length");
        std::vector<int> w(m.begin(), m.begin() + std::max(0, std::min(len, n)));
        expect<T>(c, w, [&](int i) { return r.get(i); }, "copyOf");
        for (int i = (int) w.size(); i < r.length; ++i) c.check(same<T>(r.get(i), T()), "copyOf-padding", "element " + show(i) + " is not the default");
        int from = (int) c.r.range(-2, n + 2), to = (int) c.r.range(-2, n + 2);
        OP("copyOfRange", from, to);
        Array<T> s = Arrays::copyOfRange(a, from, to);
        bool ok = from >= 0 && to >= from && to <= n;
        if (!ok) c.ev("bad_ranges");
        c.eq((int) s.length, ok ? to - from : 0, "copyOfRange-length");
        if (ok) { std::vector<int> v(m.begin() + from, m.begin() + to); expect<T>(c, v, [&](int i) { return s.get(i); }, "copyOfRange"); if (to == n) c.ev("ranges_to_end"); }
        if (r.length) { r[0] = Ty<T>::mk(Ty<T>::lo()); r.push(Ty<T>::mk(Ty<T>::hi())); }
        if (s.length) s[0] = Ty<T>::mk(Ty<T>::hi());
        c.eq((int) a.length, n, "copyOf-source-length");
        expect<T>(c, m, [&](int i) { return a.get(i); }, "copyOf-source");
    }
    tokBalance(c, before, "copyOf");
}
template<class T> static void comparing(Ctx &c) {     // equals, fill, hashCode: primitives only
    int n = c.r.size(30);
    std::vector<int> m = shape(c, n, Ty<T>::lo(), Ty<T>::hi()), m2 = m;
    if (n && c.r.chance(60)) { int i = c.r.chance(40) ? n - 1 : c.r.upto(n); m2[i] = m2[i] == Ty<T>::lo() ? Ty<T>::lo() + 1 : Ty<T>::lo(); }
    else if (c.r.chance(30)) m2.push_back(Ty<T>::lo());
    Array<T> a = arr<T>(m), b = arr<T>(m2);
    OP("equals", Str(Ty<T>::name()), m, m2);
    c.eq((bool) Arrays::equals(a, b), m == m2, "equals");
    c.eq((bool) Arrays::equals(b, a), m == m2, "equals-symmetric");
    c.check(Arrays::equals(a, a), "equals-self", "false");
    c.ev(m == m2 ? "equal_arrays" : "different_arrays");
    int v = (int) c.r.range(Ty<T>::lo(), Ty<T>::hi()), from = (int) c.r.range(-2, n + 1), to = (int) c.r.range(-2, n + 1);
    OP("fill", v, from, to);
    std::vector<int> w = m;
    if (from >= 0 && to >= from && to < n) for (int i = from; i <= to; ++i) w[i] = v; else c.ev("bad_ranges");
    Arrays::fillByIndex(&a, from, to, Ty<T>::mk(v));
    c.eq((int) a.length, n, "fill-length");
    expect<T>(c, w, [&](int i) { return a.get(i); }, "fillByIndex");
    Arrays::fill(&a, Ty<T>::mk(v));
    expect<T>(c, std::vector<int>((size_t) n, v), [&](int i) { return a.get(i); }, "fill");
}
static uint32_t eh(byte v) { return v; }
static uint32_t eh(char v) { return (uint32_t) v; }
static uint32_t eh(short v) { return (uint32_t) v; }
static uint32_t eh(int v) { return (uint32_t) v; }
static uint32_t eh(long v) { return (uint32_t) ((uint64_t) v ^ ((uint64_t) v >> 32)); }
static uint32_t eh(float v) { uint32_t b; memcpy(&b, &v, 4); return b; }
static uint32_t eh(double v) { uint64_t b; memcpy(&b, &v, 8); return (uint32_t) (b ^ (b >> 32)); }
static uint32_t eh(bool v) { return v ? 1231 : 1237; }
template<class T> static void hashOf(Ctx &c, const std::vector<T> &v) {
    Array<T> a;
    uint32_t h = 1;
    for (T x : v) { a.push(x); h = 31 * h + eh(x); }
    OP("hashCode", (int) v.size(), (int) h);
    c.eq(Arrays::hashCode(a), (int) h, "hashCode");
}
#define ALL(F) F<byte>(c); F<char>(c); F<short>(c); F<int>(c); F<long>(c); F<float>(c); F<double>(c); F<Integer>(c); F<String>(c); F<Tok>(c);
#define PRIMS(F) F<byte>(c); F<char>(c); F<short>(c); F<int>(c); F<long>(c); F<float>(c); F<double>(c);
WORKLOAD(sorting_, 900, 25000) { ALL(sorting) }
WORKLOAD(searching_, 700, 20000) { ALL(searching) }
WORKLOAD(copying_, 700, 20000) { ALL(copying) }
WORKLOAD(comparing_, 700, 20000) { PRIMS(comparing) }
WORKLOAD(hashing, 900, 20000) {
    int n = c.r.chance(10) ? 0 : c.r.size(30);
    std::vector<byte> by; std::vector<char> ch; std::vector<short> sh; std::vector<int> in; std::vector<long> lo; std::vector<float> fl; std::vector<double> db; std::vector<bool> bo;
    for (int i = 0; i < n; ++i) {
        int32_t x = c.r.i32(); int64_t y = c.r.i64();
        by.push_back((byte) x); ch.push_back((char) (x & 127)); sh.push_back((short) x); in.push_back(x); lo.push_back(y);
        fl.push_back(c.r.chance(10) ? -0.0f : (float) x / 3); db.push_back(c.r.chance(10) ? 1e300 : (double) y / 3); bo.push_back(x & 1);
    }
    hashOf(c, by); hashOf(c, ch); hashOf(c, sh); hashOf(c, in); hashOf(c, lo); hashOf(c, fl); hashOf(c, db); hashOf(c, bo);
    Array<bool> a, b; for (bool x : bo) { a.push(x); b.push(x); }
    c.check(Arrays::equals(a, b), "equals(boolean)", "false");
    b.push(true);
    c.check(!Arrays::equals(a, b), "equals(boolean)", "arrays of different length are equal");
    Array<bool> cp = Arrays::copyOf(a, n + 2);
    c.eq((int) cp.length, n + 2, "copyOf(boolean)-length");
    for (int i = 0; i < n + 2; ++i) c.eq((bool) cp.get(i), i < n ? (bool) bo[i] : false, "copyOf(boolean)");
    if (n) { Array<bool> rg = Arrays::copyOfRange(a, n / 2, n); c.eq((int) rg.length, n - n / 2, "copyOfRange(boolean)"); for (int i = 0; i < rg.length; ++i) c.eq((bool) rg.get(i), (bool) bo[n / 2 + i], "copyOfRange(boolean)"); }
}
template<class T> static void arrayHistory(Ctx &c) {  // the Array type itself
    long before = Tok::live();
    {
        std::unique_ptr<Array<T>> a;
        std::vector<T> m;
        int ctor = c.r.upto(4), steps = 3 + c.r.size(40);
        auto mk = [&]() { return Ty<T>::mk((int) c.r.range(Ty<T>::lo(), Ty<T>::hi())); };
        if (ctor == 0) { T x = mk(), y = mk(); a.reset(new Array<T>{x, y}); m = {x, y}; }
        else if (ctor == 1) { long n = c.r.upto(20); a.reset(new Array<T>(n)); m.resize(n); }
        else a.reset(new Array<T>());
        OP("Array", Str(Ty<T>::name()), ctor);
        auto agree = [&](Array<T> &x, const std::vector<T> &w) {
            c.eq((int) x.length, (int) w.size(), "Array.length");
            const Array<T> &cx = x;
            for (size_t i = 0; i < w.size(); ++i) { c.check(same<T>(x.get((int) i), w[i]), "Array.get", "element " + show(i)); c.check(same<T>(cx[(int) i], w[i]), "Array[]", "element " + show(i)); }
            size_t k = 0;
            for (T e : cx) { c.check(k < w.size() && same<T>(e, w[k]), "Array.iteration", "element " + show(k)); ++k; }
            c.eq(k, w.size(), "Array.iteration-count");
        };
        for (int s = 0; s < steps; ++s) {
            int n = (int) m.size(), i = (int) c.r.range(-2, n + 2), op = c.r.upto(10);
            if (c.r.chance(4)) i = c.r.chance(50) ? INT32_MIN : INT32_MAX;
            bool in = i >= 0 && i < n;
            if (op < 4) { T x = mk(); OP("push"); a->push(x); m.push_back(x); }
            else if (op == 4) { T x = mk(); OP("write", i); Str ex = thrown([&]() { (*a)[i] = x; }); c.check((ex == "") == in, "Array[]-bounds", "index " + show(i) + " of " + show(n) + " threw '" + ex + "'"); if (in) m[i] = x; else c.ev("bad_indexes"); }
            else if (op == 5) { OP("get", i); T x = T(); Str ex = thrown([&]() { const Array<T> &ca = *a; x = c.r.chance(50) ? a->get(i) : ca[i]; }); c.check((ex == "") == in, "Array.get-bounds", "index " + show(i) + " of " + show(n) + " threw '" + ex + "'"); if (in) c.check(same<T>(x, m[i]), "Array.get", "element " + show(i)); else c.ev("bad_indexes"); }
            else if (op == 6) { T x = mk(), y = mk(); OP("append_list"); *a += {x, y}; m.push_back(x); m.push_back(y); }
            else if (op == 7) { OP("copy"); Array<T> cp = *a; std::vector<T> cm = m; cp.push(mk()); cm.push_back(cp.get(n)); if (n) { cp[0] = mk(); cm[0] = cp.get(0); } agree(cp, cm); agree(*a, m); if (c.r.chance(40)) { *a = cp; m = cm; } }
            else if (op == 8) { if (!n) continue; int j = c.r.upto(n); OP("push_own", j); a->push((*a)[j]); m.push_back(m[j]); }
            else { OP("self_assign"); Array<T> &r = *a; *a = r; }
            agree(*a, m);
        }
    }
    tokBalance(c, before, "Array");
}
WORKLOAD(array_type, 500, 12000) { arrayHistory<int>(c); arrayHistory<double>(c); arrayHistory<byte>(c); arrayHistory<String>(c); arrayHistory<Tok>(c); }
WORKLOAD(array_of_texts, 500, 8000) {                  // NULL-terminated char* tables
    std::vector<Str> m; std::vector<char *> p;
    int n = c.r.upto(8);
    for (int i = 0; i < n; ++i) m.push_back(c.r.bytes(c.r.upto(6), "abc\xff"));
    for (auto &s : m) p.push_back((char *) s.c_str());
    p.push_back(nullptr);
    OP("Array(char**)", n);
    Array<String> a(p.data());
    c.check(VS(a) == m, "Array(char**)", show(VS(a)) + " from " + show(m));
}
WORKLOAD(as_list, 300, 5000) {
    int x = c.r.i32(), y = c.r.i32(), z = c.r.i32();
    OP("asList", x, y, z);
    auto l = Arrays::asList({x, y, z});
    c.check(l.size() == 3 && l.get(0) == x && l.get(1) == y && l.get(2) == z, "asList", "content differs");
}
template<class To, class From> static void converting(Ctx &c) {  // copyOfRange into another element type
    int n = c.r.size(30);
    Array<From> a; std::vector<From> m;
    for (int i = 0; i < n; ++i) { From x = Ty<From>::mk((int) c.r.range(Ty<From>::lo(), Ty<From>::hi())); a.push(x); m.push_back(x); }
    int from = (int) c.r.range(-2, n + 2), to = (int) c.r.range(-2, n + 2);
    if (c.r.chance(50) && n) { from = c.r.upto(n); to = from + 1 + c.r.upto(n - from); }
    OP("copyOfRange-converting", n, from, to);
    Array<To> s = Arrays::copyOfRange(a, from, to, To());
    bool ok = from >= 0 && to > from && to <= n;
    c.ev(ok ? "converted_ranges" : "bad_ranges");
    c.eq((int) s.length, ok ? to - from : 0, "copyOfRange(type)-length");
    for (int i = 0; i < s.length; ++i) c.check(s.get(i) == (To) m[from + i], "copyOfRange(type)", "element " + show(i) + " is wrong");
    c.eq((int) a.length, n, "copyOfRange(type)-source");
}
WORKLOAD(converting_, 1500, 30000) { converting<double, int>(c); converting<int, byte>(c); converting<int, char>(c); converting<long, short>(c); converting<Tok, long>(c); }
MON_MAIN
