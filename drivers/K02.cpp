// K02: identity of objects, and equality / hashing / ordering of the value classes agreeing with one another.
#include "lib.hpp"
#include "library/Java/Lang/Enum/Enum.hpp"
#include "library/Java/Lang/Boolean/Boolean.hpp"
#include "library/Java/Lang/Character/Character.hpp"
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Util/UUID/UUID.hpp"
#include "library/Java/Util/BitSet/BitSet.hpp"
#include "library/Java/Util/HashMap/HashMap.hpp"
#include "library/Java/Util/Set/Set.hpp"
#include <functional>
#include <limits>
#include <map>
using mon::Ctx;
using mon::Rng;
namespace L = Java::Lang;
namespace U = Java::Util;
template<class A, class B> static void eqk(Ctx &c, const Str &key, const A &actual, const B &expected) { c.eq(actual, expected, key); }

// ---- plain objects ------------------------------------------------------------------------------------------------
struct Small : public L::Object { int x = 0; };
struct Large : public Small { char room[200]; };
struct Hashed : public L::Object {            // a user's class with a hash of its own
    int key; explicit Hashed(int k) : key(k) {}
    int hashCode() const override { return key; }
};
struct Special : public L::Object {           // a user's class with an equality of its own
    int key; explicit Special(int k) : key(k) {}
    boolean equals(const L::Object &o) const override {
        const Special *s = dynamic_cast<const Special *>(&o);
        return s && s->key / 10 == key / 10;
    }
};
static Str hexOf(int v) { char b[16]; snprintf(b, sizeof b, "%x", (unsigned) v); return b; }
static void objects(Ctx &c, Rng &r);
WORKLOAD(objects_laws, 300, 3000) { objects(c, c.r); }
static void objects(Ctx &c, Rng &r) {
    // one size class, so that the addresses, and so the hashes, of different objects never agree modulo 2^32
    int n = 2 + r.size(40);
    std::vector<Small> block(n);
    std::vector<std::unique_ptr<Small>> heap;
    std::vector<const L::Object *> all;
    for (auto &o : block) all.push_back(&o);
    for (int i = 0; i < n; ++i) {
        int a = r.upto((int) all.size()), b = r.chance(30) ? a : r.upto((int) all.size());
        const L::Object &x = *all[a], &y = *all[b];
        bool same = a == b;
        OP("Object", a, b);
        eqk(c, "Object.equals", x.equals(y), same);
        eqk(c, "Object.==", x == y, same);
        eqk(c, "Object.!=", x != y, !same);
        int h = x.hashCode();
        Small copy = block[a];
        eqk(c, "Object.hash-stable", x.hashCode(), h);
        eqk(c, "Object.hash-follows-equality", x.hashCode() == y.hashCode(), same);
        Small &m = block[a];
        eqk(c, "Object.toString", N(m.toString()), Str(typeid(m).name()) + "@" + hexOf(h));
        m.x++;
        eqk(c, "Object.hash-after-change", m.hashCode(), h);
        c.check(thrown([&] { r.chance(50) ? m.wait() : r.chance(50) ? m.wait(5) : m.wait(5, 7); }) != "", "Object.wait", "wait outside of a monitor did not throw");
        m.notify();
        m.notifyAll();
        c.ev("steps");
    }
    {
        std::vector<std::unique_ptr<L::Object>> zoo;        // any sizes and classes, any hashes
        for (int i = 2 + r.size(12); i-- > 0;) switch (r.upto(6)) {
            case 0: zoo.emplace_back(new L::Object); break;
            case 1: zoo.emplace_back(new Small); break;
            case 2: zoo.emplace_back(new Large); break;
            case 3: zoo.emplace_back(new Hashed(r.upto(3))); break;
            case 4: zoo.emplace_back(new L::Boolean(true)); break;
            case 5: zoo.emplace_back(new L::Integer(r.chance(50) ? 1231 : r.upto(3))); break;
        }
        for (auto &x : zoo) for (auto &y : zoo) {
            L::Integer *xi = dynamic_cast<L::Integer *>(x.get()), *yi = dynamic_cast<L::Integer *>(y.get());
            bool same = x == y || (xi && yi && xi->intValue() == yi->intValue()) || (dynamic_cast<L::Boolean *>(x.get()) && dynamic_cast<L::Boolean *>(y.get()));
            eqk(c, "Object.mixed-equals", x->equals(*y), same);
            eqk(c, "Object.mixed-==", *x == *y, same);
            eqk(c, "Object.mixed-!=", *x != *y, !same);
            c.ev(same ? "mixed_equal" : "mixed_different");
        }
    }
    L::Object plain;
    Large large;
    Hashed hashed(1);
    const L::Object *kinds[] = {&plain, &block[0], &large, &hashed};
    for (int i = 0; i < 4; ++i) {
        const L::Object &o = *kinds[i];
        eqk(c, "instanceof.Object", instanceof<L::Object>(o), i == 0);
        eqk(c, "instanceof.Small", instanceof<Small>(o), i == 1);
        eqk(c, "instanceof.Large", instanceof<Large>(o), i == 2);
        eqk(c, "instanceof.Hashed", instanceof<Hashed>(o), i == 3);
    }
    eqk(c, "Object.toString", N(plain.toString()), Str(typeid(L::Object).name()) + "@" + hexOf(plain.hashCode()));
    eqk(c, "Object.toString", N(large.toString()), Str(typeid(Large).name()) + "@" + hexOf(large.hashCode()));
}
static void overriding(Ctx &c, Rng &r);
WORKLOAD(overriding_laws, 300, 3000) { overriding(c, c.r); }
static void overriding(Ctx &c, Rng &r) {
    int n = 2 + r.size(30);
    for (int i = 0; i < n; ++i) {
        int a = r.range(-20, 20), b = r.chance(30) ? a : r.range(-20, 20);
        Hashed x(a), y(b);
        OP("Hashed", a, b);
        eqk(c, "Hashed.equals", x.equals(y), false);
        eqk(c, "Hashed.==", x == y, false);
        eqk(c, "Hashed.!=", x != y, true);
        eqk(c, "Hashed.itself", x == x && x.equals(x) && !(x != x), true);
        eqk(c, "Hashed.hashCode", ((L::Object &) x).hashCode(), a);
        eqk(c, "Hashed.toString", N(x.toString()), Str(typeid(Hashed).name()) + "@" + hexOf(a));
        Special s(a + 20), t(b + 20);
        OP("Special", a, b);
        bool e = (a + 20) / 10 == (b + 20) / 10;
        const L::Object &so = s, &to = t;
        eqk(c, "Special.equals", so.equals(to), e);
        eqk(c, "Special.==", so == to, e);
        eqk(c, "Special.!=", so != to, !e);
    }
}
// two objects whose addresses differ by a multiple of 2^32: found among objects of different size under any allocator
// that spreads its arenas, reproduced here with a reservation of address space
#include <sys/mman.h>
PROBE(objects_4GiB_apart) {
    size_t span = (1UL << 32) + 8192;
    char *p = (char *) mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == (char *) MAP_FAILED) return false;
    mprotect(p, 4096, PROT_READ | PROT_WRITE);
    mprotect(p + (1UL << 32), 4096, PROT_READ | PROT_WRITE);
    L::Object *a = new(p) L::Object, *b = new(p + (1UL << 32)) L::Object;
    bool holds = !a->equals(*b) && *a != *b;
    munmap(p, span);
    return holds;
}
PROBE(different_classes_same_hash) {
    L::Boolean yes(true);
    L::Integer number(1231);
    const L::Object &a = yes, &b = number;
    return !a.equals(b);
}

// ---- value classes ------------------------------------------------------------------------------------------------
// The specification: key(v) is what the value denotes; equal keys mean equal objects, the order of keys is the order.
template<class T> struct Face {
    std::function<bool(T &, T &)> eq, ne, equals, viaObject, lt, gt, le, ge;
    std::function<int(T &, T &)> compare;
    std::function<long(T &)> hash, stdHash;
    std::function<Str(T &)> text;
};
template<class T, class Key> static void laws(Ctx &c, Rng &r, const Str &name, const std::vector<Key> &keys, std::function<T(const Key &)> make, const Face<T> &f, bool ordered = true) {
    std::vector<std::unique_ptr<T>> objects;
    std::vector<Key> key;
    auto add = [&](const Key &k, T *t) { key.push_back(k); objects.emplace_back(t); };
    int n = 3 + r.size(14);
    for (int i = 0; i < n; ++i) {
        if (i && r.chance(30)) { int j = r.upto(i); add(key[j], new T(*objects[j])); c.ev("copies"); }                 // a copy
        else if (i && r.chance(15)) { int j = r.upto(i); Key k = keys[r.upto((int) keys.size())]; T *t = new T(make(k)); *t = *objects[j]; add(key[j], t); }  // assigned over
        else { Key k = keys[r.upto((int) keys.size())]; add(k, new T(make(k))); }
    }
    std::vector<long> firstHash(n), firstStd(n);
    for (int i = 0; i < n; ++i) {
        if (f.hash) firstHash[i] = f.hash(*objects[i]);
        if (f.stdHash) firstStd[i] = f.stdHash(*objects[i]);
    }
    for (int i = 0; i < n; ++i) c.op(name + "(" + (f.text ? f.text(*objects[i]) : std::to_string(i)) + ")");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        T &a = *objects[i], &b = *objects[j];
        bool e = key[i] == key[j], less = key[i] < key[j];
        if (f.eq) eqk(c, (name + ".=="), f.eq(a, b), e);
        if (f.viaObject) { eqk(c, (name + ".equals-through-Object"), f.viaObject(a, b), e); }
        if (f.ne) eqk(c, (name + ".!="), f.ne(a, b), !e);
        c.ev(e ? (i == j ? "same_object_pairs" : "equal_pairs") : f.hash && f.hash(a) == f.hash(b) ? "colliding_pairs" : "different_pairs");
        if (f.equals) eqk(c, (name + ".equals"), f.equals(a, b), e);
        if (f.compare) eqk(c, (name + ".compareTo"), ordered ? sgn(f.compare(a, b)) : (int) (f.compare(a, b) != 0), ordered ? (e ? 0 : less ? -1 : 1) : (int) !e);
        if (f.lt) eqk(c, (name + ".<"), f.lt(a, b), less);
        if (f.gt) eqk(c, (name + ".>"), f.gt(a, b), !less && !e);
        if (f.le) eqk(c, (name + ".<="), f.le(a, b), less || e);
        if (f.ge) eqk(c, (name + ".>="), f.ge(a, b), !less);
        if (f.hash && e) eqk(c, (name + ".hash-of-equal"), f.hash(a), f.hash(b));
        if (f.stdHash && e) eqk(c, (name + ".std-hash-of-equal"), f.stdHash(a), f.stdHash(b));
        if (f.text) eqk(c, (name + ".text-of-equal"), f.text(a) == f.text(b), e);
    }
    for (int i = 0; i < n; ++i) {
        if (f.hash) eqk(c, (name + ".hash-stable"), f.hash(*objects[i]), firstHash[i]);
        if (f.stdHash) eqk(c, (name + ".std-hash-stable"), f.stdHash(*objects[i]), firstStd[i]);
    }
}
#define R2(expr) [](T &a, T &b) { return expr; }
#define VIA f.viaObject = [](T &a, T &b) { const L::Object &x = a, &y = b; bool e = x.equals(y); if ((x == y) != e || (x != y) == e) throw mon::Violation{"Object.operators-disagree", "equals " + show(e)}; return e; };
#define FULL_OPS f.eq = R2(a == b); f.ne = R2(a != b); f.lt = R2(a < b); f.gt = R2(a > b); f.le = R2(a <= b); f.ge = R2(a >= b);
template<class I> static std::vector<I> whole(Rng &r) {
    typedef std::numeric_limits<I> lim;
    I base = (I) r.u64();
    std::vector<I> v = {0, 1, (I) -1, 2, 127, (I) -128, (I) 255, lim::max(), lim::min(), (I) (lim::max() - 1), (I) (lim::min() + 1),
                        base, (I) (base + 1), (I) (base ^ 1), (I) ~base, (I) r.u64(), (I) r.u64()};
    if (sizeof(I) == 8) for (I x : {(I) ((I) 1 << (sizeof(I) * 4)), base}) {   // same halves folded: equal hashes, different values
        unsigned long u = (unsigned long) x;
        v.push_back((I) ((u << 32) | (u >> 32)));
        v.push_back((I) (u ^ 0xffffffffffffffffUL));
        v.push_back((I) (u + 0x100000001UL));
        v.push_back((I) ((u >> 32) ^ (u & 0xffffffffUL)));
    }
    return v;
}
static void integers(Ctx &c, Rng &r);
WORKLOAD(integers_laws, 300, 3000) { integers(c, c.r); }
static void integers(Ctx &c, Rng &r) {
    {
        typedef L::Integer T; Face<T> f; VIA FULL_OPS
        f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
        f.stdHash = [](T &a) { return (long) std::hash<T>()(a); }; f.text = [](T &a) { return N(a.toString()); };
        laws<T, int>(c, r, "Integer", whole<int>(r), [](const int &k) { return T(k); }, f);
    }
    {
        typedef L::Long T; Face<T> f; FULL_OPS
        f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
        f.stdHash = [](T &a) { return (long) std::hash<T>()(a); }; f.text = [](T &a) { return N(a.toString()); };
        laws<T, long>(c, r, "Long", whole<long>(r), [](const long &k) { return T(k); }, f);
    }
    {
        typedef L::Short T; Face<T> f; FULL_OPS
        f.stdHash = [](T &a) { return (long) std::hash<T>()(a); }; f.text = [](T &a) { return N(a.toString()); };
        laws<T, short>(c, r, "Short", whole<short>(r), [](const short &k) { return T(k); }, f);
    }
    {
        typedef L::Bytes T; Face<T> f; VIA FULL_OPS
        f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
        f.stdHash = [](T &a) { return (long) std::hash<T>()(a); }; f.text = [](T &a) { return N(a.toString()); };
        laws<T, unsigned char>(c, r, "Bytes", whole<unsigned char>(r), [](const unsigned char &k) { return T((byte) k); }, f);
    }
    {
        typedef L::Boolean T; Face<T> f; VIA f.eq = R2(a == b); f.ne = R2(a != b);
        f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); }; f.text = [](T &a) { return N(a.toString()); };
        laws<T, int>(c, r, "Boolean", {0, 1}, [](const int &k) { return T((boolean) k); }, f);
    }
}
static void floating(Ctx &c, Rng &r);
WORKLOAD(floating_laws, 300, 3000) { floating(c, c.r); }
static void floating(Ctx &c, Rng &r) {
    // ordinary numbers only: == follows IEEE, equals and compareTo tell zeros and NaN apart, which N04 checks
    auto reals = [&](double top) {
        std::vector<double> v = {1, -1, 0.5, 2, 3, 0.1, -0.1, top, -top, 1e-30, 1e30, 16777216, -16777215};
        for (int i = 0; i < 4; ++i) v.push_back((r.unit() - 0.5) * std::pow(10, r.range(-30, 30)));
        return v;
    };
    {
        typedef L::Float T; Face<T> f; FULL_OPS
        f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
        f.stdHash = [](T &a) { return (long) std::hash<T>()(a); };
        std::vector<float> keys;
        for (double d : reals(3.4e38)) { keys.push_back((float) d); keys.push_back(std::nextafterf((float) d, 0)); }
        laws<T, float>(c, r, "Float", keys, [](const float &k) { return T(k); }, f);
    }
    {
        typedef L::Double T; Face<T> f; FULL_OPS
        f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
        f.stdHash = [](T &a) { return (long) std::hash<T>()(a); };
        std::vector<double> keys;
        for (double d : reals(1.7e308)) { keys.push_back(d); keys.push_back(std::nextafter(d, 0)); }
        laws<T, double>(c, r, "Double", keys, [](const double &k) { return T(k); }, f);
    }
}
static std::vector<Str> words(Rng &r) {
    std::vector<Str> v = {"", "a", "b", "A", "aa", "ab", "Aa", "BB", "AaAa", "BBBB", "AaBB", Str("a\0b", 3), Str("a\0c", 3), Str("\0", 1), "\xff", "\x7f", "\x80", "a ", " a"};
    Str base;
    for (int i = r.size(40); i-- > 0;) base += (char) (1 + r.upto(255));
    v.push_back(base); v.push_back(base + "x"); v.push_back("x" + base);
    if (!base.empty()) { Str t = base; t[r.upto((int) t.size())] ^= 1; if (t.find('\0') == Str::npos) v.push_back(t); }
    return v;
}
struct UKey { Str s; bool operator==(const UKey &o) const { return s == o.s; } bool operator<(const UKey &o) const { return std::lexicographical_compare(s.begin(), s.end(), o.s.begin(), o.s.end(), [](char x, char y) { return (unsigned char) x < (unsigned char) y; }); } };
static void texts(Ctx &c, Rng &r);
WORKLOAD(texts_laws, 300, 3000) { texts(c, c.r); }
static void texts(Ctx &c, Rng &r) {
    typedef L::String T; Face<T> f; FULL_OPS
    f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
    f.stdHash = [](T &a) { return (long) std::hash<T>()(a); }; f.text = [](T &a) { return N(a.toString()); };
    std::vector<UKey> keys;
    for (auto &w : words(r)) keys.push_back({w});
    laws<T, UKey>(c, r, "String", keys, [](const UKey &k) { return J(k.s); }, f);
}
static void utilities(Ctx &c, Rng &r);
WORKLOAD(utilities_laws, 300, 3000) { utilities(c, c.r); }
static void utilities(Ctx &c, Rng &r) {
    {
        typedef U::Date T; Face<T> f; VIA f.eq = R2(a == b); f.ne = R2(a != b);
        f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
        f.lt = R2(a.before(b)); f.gt = R2(a.after(b));
        std::vector<long> keys;
        for (long k : whole<long>(r)) keys.push_back(k % 4000000000000000L);
        for (int i = 0; i < 3; ++i) {       // different instants of one hash value
            long t = (long) (r.u64() % 4000000000000UL), hi = 1 + r.upto(400);
            keys.push_back(t);
            keys.push_back(t ^ ((hi << 32) | hi));
        }
        laws<T, long>(c, r, "Date", keys, [](const long &k) { return T(k); }, f);
    }
    {
        typedef std::pair<long, long> Key;
        typedef U::UUID T; Face<T> f; VIA f.eq = R2(a == b); f.ne = R2(a != b);
        f.equals = R2(a.equals(b)); f.compare = R2(a.compareTo(b)); f.hash = [](T &a) { return (long) a.hashCode(); };
        f.text = [](T &a) { return N(a.toString()); };
        std::vector<Key> keys;
        auto w = whole<long>(r);
        for (int i = 0; i < 8; ++i) {
            long a = w[r.upto((int) w.size())], b = w[r.upto((int) w.size())], m = (long) r.u64();
            keys.push_back({a, b}); keys.push_back({b, a}); keys.push_back({a, b + 1}); keys.push_back({a ^ m, b ^ m}); // same folded hash
        }
        laws<T, Key>(c, r, "UUID", keys, [](const Key &k) { return T(k.first, k.second); }, f, true);
    }
    {
        typedef std::set<int> Key;
        typedef U::BitSet T; Face<T> f; VIA f.eq = R2(a == b); f.ne = R2(a != b);
        f.equals = R2(a.equals(b)); f.hash = [](T &a) { return (long) a.hashCode(); }; f.text = [](T &a) { return N(a.toString()); };
        std::vector<Key> keys = {{}, {0}, {1}, {63}, {64}, {0, 64}, {127}, {128}, {0, 1, 2}};
        Key base;
        for (int i = r.size(12); i-- > 0;) base.insert(r.upto(300));
        keys.push_back(base); base.insert(r.upto(300)); keys.push_back(base);
        Key low = {5, 9}, high = {5, 9, 64 + 7, 64 + 7 + 32};      // words 0: same; word 1 folds to nothing in a 32-bit hash
        keys.push_back(low); keys.push_back(high);
        laws<T, Key>(c, r, "BitSet", keys, [&](const Key &k) {
            T t(1 + r.upto(200));
            std::vector<int> order(k.begin(), k.end());
            for (int i = (int) order.size() - 1; i > 0; --i) std::swap(order[i], order[r.upto(i + 1)]);
            for (int b : order) t.set(b);
            if (r.chance(40)) { int x = 300 + r.upto(500); t.set(x); t.clear(x); }       // capacity differs, the set does not
            return t;
        }, f);
    }
}
struct Colour : public L::Enum<Colour> { Colour(const Str &n, int o) : L::Enum<Colour>(J(n), o) {} };
static void enums(Ctx &c, Rng &r);
WORKLOAD(enums_laws, 300, 3000) { enums(c, c.r); }
static void enums(Ctx &c, Rng &r) {
    int n = 2 + r.size(12);
    std::vector<Colour> all;
    std::vector<Str> names = words(r);
    std::vector<int> ord; std::vector<Str> nm;
    for (int i = 0; i < n; ++i) { ord.push_back(r.chance(70) ? r.upto(n) : (int) r.range(0, 2000000000)); nm.push_back(names[r.upto((int) names.size())]); all.push_back(Colour(nm[i], ord[i])); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        OP("Enum", i, j);
        eqk(c, "Enum.compareTo", sgn(all[i].compareTo(all[j])), sgn((long) ord[i] - ord[j]));
        eqk(c, "Enum.equals", all[i].equals(all[j]), ord[i] == ord[j]);
        eqk(c, "Enum.name", N(all[i].name()), nm[i]);
        eqk(c, "Enum.toString", N(all[i].toString()), nm[i]);
        eqk(c, "Enum.ordinal", all[i].ordinal(), ord[i]);
        Colour copy = all[i];
        eqk(c, "Enum.copy", copy.equals(all[i]) && copy.ordinal() == ord[i] && N(copy.name()) == nm[i], true);
        copy = all[j];
        eqk(c, "Enum.assign", copy.equals(all[j]) && copy.ordinal() == ord[j] && N(copy.name()) == nm[j], true);
    }
}
// objects equal to a key find its mapping, others do not: for every class usable as a key
template<class T, class Key> static void keyed(Ctx &c, Rng &r, const Str &name, const std::vector<Key> &keys, std::function<T(const Key &)> make) {
    U::HashMap<T, int> map;
    c.op(name + "-keys(" + std::to_string(keys.size()) + ")");
    std::vector<std::pair<Key, int>> model;
    auto at = [&](const Key &k) { for (auto &m : model) if (m.first == k) return &m; return (std::pair<Key, int> *) nullptr; };
    for (int i = 5 + r.size(40); i-- > 0;) {
        const Key &k = keys[r.upto((int) keys.size())];
        auto *m = at(k);
        int what = r.upto(3);
        c.op(name + "(" + std::to_string(what) + "," + std::to_string(&k - &keys[0]) + ")");
        switch (what) {
            case 0: map.put(make(k), i); if (m) m->second = i; else model.push_back({k, i}); break;
            case 1: eqk(c, (name + "-key.containsKey"), map.containsKey(make(k)), m != nullptr);
                    if (m) eqk(c, (name + "-key.get"), map.get(make(k)), m->second);
                    break;
            case 2: if (m) { map.remove(make(k)); model.erase(model.begin() + (m - &model[0])); } break;
        }
        eqk(c, (name + "-key.size"), map.size(), (int) model.size());
        c.ev("steps");
    }
}
static void keys(Ctx &c, Rng &r);
WORKLOAD(keys_laws, 300, 3000) { keys(c, c.r); }
static void keys(Ctx &c, Rng &r) {
    keyed<L::Integer, int>(c, r, "Integer", whole<int>(r), [](const int &k) { return L::Integer(k); });
    keyed<L::Long, long>(c, r, "Long", whole<long>(r), [](const long &k) { return L::Long(k); });
    keyed<L::Short, short>(c, r, "Short", whole<short>(r), [](const short &k) { return L::Short(k); });
    keyed<L::Double, double>(c, r, "Double", {1, 1.5, -1.5, 1e300, 1e-300, 0.1, 0.2}, [](const double &k) { return L::Double(k); });
    keyed<L::Float, float>(c, r, "Float", {1, 1.5f, -1.5f, 1e30f, 1e-30f, 0.1f, 0.2f}, [](const float &k) { return L::Float(k); });
    keyed<L::String, Str>(c, r, "String", words(r), [](const Str &k) { return J(k); });
}
MON_MAIN
