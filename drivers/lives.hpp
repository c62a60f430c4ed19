// Random object life histories and a catalogue of library calls, shared by X01 (memory) and X02 (threads).
#ifndef VERIF_LIVES_HPP
#define VERIF_LIVES_HPP
#include "lib.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
#include "library/Java/Net/URL/URL.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
using mon::Ctx;
using mon::Rng;
using namespace Java::Lang;
namespace U = Java::Util;
namespace CC = Java::Util::Concurrent;
using Javax::Ws::Rs::Core::MediaType;
using Java::Security::MessageDigest;
using Java::Text::SimpleDateFormat;
typedef Java::Lang::String S;

static Str word(Rng &r) { static const std::vector<int> n = {0, 1, 3, 15, 16, 17, 40, 300}; return r.bytes(r.pick(n), "abcXYZ019 -_/"); }
static Str num(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
struct P { int x, y; explicit P(int x = 0, int y = 0) : x(x), y(y) {} bool operator==(const P &o) const { return x == o.x && y == o.y; } };

// make a fresh object, read everything it shows, and change it in place
template<class T> struct Of;
#define OF(T, MAKE, VALUE, CHANGE) \
    template<> struct Of<T> { typedef T X; \
        static const char *name() { return #T; } \
        static X *make(Rng &r) { (void) r; MAKE } \
        static Str value(X &x) { VALUE } \
        static void change(X &x, Rng &r) { (void) r; (void) x; CHANGE } };
typedef U::ArrayList<S> ListS; typedef U::ArrayList<int> ListI; typedef U::Vector<S> VecS; typedef U::Vector<int> VecI; typedef U::Stack<S> StackS;
typedef U::LinkedList<S> LinkS; typedef U::PriorityQueue<S> PrioS; typedef U::HashMap<S, S> MapS; typedef U::HashMap<int, ListS> MapL; typedef U::Set<S> SetS;
typedef Array<S> ArrS; typedef Array<Array<int>> ArrA; typedef CC::ConcurrentHashMap<S, S> ChmS;
OF(S, return new S(word(r));, return N(x);, switch (r.upto(4)) { case 0: x += J(word(r)); break; case 1: x = x + J(word(r)); break; case 2: x = x.toUpperCase().trim(); break; default: x += 'q'; })
OF(Integer, return new Integer(r.i32());, return std::to_string(x.intValue());, x = Integer(r.i32() / 4); x += x;)
OF(Long, return new Long((long) r.i64());, return std::to_string(x.longValue());, x = Long((long) (r.i64() / 4)); x += x;)
OF(Short, return new Short((short) r.i32());, return std::to_string(x.shortValue());, x = Short((short) r.i32());)
OF(Bytes, return new Bytes((byte) r.i32());, return std::to_string((int) x.byteValue());, x = Bytes((byte) r.i32());)
OF(Character, return new Character((char) r.i32());, return Str(1, x.charValue());, x = Character((char) r.i32());)
OF(Boolean, return new Boolean(r.chance(50));, return x.booleanValue() ? "t" : "f";, x = Boolean(!x.booleanValue());)
OF(Float, return new Float((float) r.i32() / 7);, return num(x.floatValue());, x = Float((float) r.i32() / 3);)
OF(Double, return new Double((double) r.i64() / 7);, return num(x.doubleValue());, x = Double((double) r.i64() / 3);)
OF(StringBuilder, StringBuilder *p = r.chance(50) ? new StringBuilder(J(word(r))) : new StringBuilder(r.upto(40)); p->append(J(word(r))); return p;,
   return N(x.toString()) + ":" + std::to_string(x.length());, switch (r.upto(6)) { case 0: x.append(J(word(r))); break; case 1: x.reverse(); break; case 2: x.setLength(x.length() / 2); break; case 3: x.insert(0, J(word(r))); break; case 4: x.trimToSize(); break; default: x.ensureCapacity(200); x.append(7); })
OF(StringBuffer, StringBuffer *p = r.chance(50) ? new StringBuffer(J(word(r))) : new StringBuffer(r.upto(40)); p->append(J(word(r))); return p;,
   return N(x.toString()) + ":" + std::to_string(x.length());, switch (r.upto(6)) { case 0: x.append(J(word(r))); break; case 1: x.reverse(); break; case 2: x.setLength(x.length() / 2); break; case 3: x.insert(0, J(word(r))); break; case 4: x.trimToSize(); break; default: x.ensureCapacity(200); x.append(7); })
OF(StringBufferUnSafe, StringBufferUnSafe *p = r.chance(50) ? new StringBufferUnSafe(J(word(r))) : new StringBufferUnSafe(r.upto(40)); p->append(J(word(r))); return p;,
   return N(x.toString()) + ":" + std::to_string(x.length());, switch (r.upto(6)) { case 0: x.append(J(word(r))); break; case 1: x.reverse(); break; case 2: x.setLength(x.length() / 2); break; case 3: x.insert(0, J(word(r))); break; case 4: x.trimToSize(); break; default: x.ensureCapacity(200); x.append(7); })
typedef std::map<int, Str> IntMap;
template<class L> static Str listed(L &x) { Str s; for (int i = 0; i < x.size(); ++i) s += N(x.get(i)) + "|"; return s; }
template<class L> static Str listedI(L &x) { Str s; for (int i = 0; i < x.size(); ++i) s += std::to_string(x.get(i)) + "|"; return s; }
OF(ListS, ListS *p = new ListS(); for (int n = r.upto(30); n > 0; --n) p->add(J(word(r))); return p;, return listed(x);,
   switch (r.upto(5)) { case 0: x.clear(); break; case 1: if (x.size()) x.remove(0); break; case 2: if (x.size()) x.set(0, J(word(r))); break; default: for (int n = r.upto(20); n >= 0; --n) x.add(J(word(r))); })
OF(ListI, ListI *p = new ListI(); for (int n = r.upto(50); n > 0; --n) p->add(r.i32()); return p;, return listedI(x);, if (r.chance(20)) x.clear(); else x.add(r.i32());)
OF(VecS, VecS *p = new VecS(1 + r.upto(20), r.upto(4)); for (int n = r.upto(30); n > 0; --n) p->add(J(word(r))); return p;, return listed(x);,
   switch (r.upto(6)) { case 0: x.clear(); break; case 1: if (x.size()) x.remove(0); break; case 2: if (x.size()) x.set(0, J(word(r))); break; case 3: x.trimToSize(); break; case 4: x.setSize(r.upto(40)); break; default: for (int n = r.upto(20); n >= 0; --n) x.add(J(word(r))); })
OF(VecI, VecI *p = new VecI(1 + r.upto(20)); for (int n = r.upto(50); n > 0; --n) p->add(r.i32()); return p;, return listedI(x);, switch (r.upto(4)) { case 0: x.ensureCapacity(x.size() + 50); x.add(1); break; case 1: x.clear(); break; default: x.add(r.i32()); })
OF(StackS, StackS *p = new StackS(); for (int n = r.upto(30); n > 0; --n) p->push(J(word(r))); return p;, return listed(x);, if (x.empty() || r.chance(60)) x.push(J(word(r))); else x.pop();)
OF(LinkS, LinkS *p = new LinkS(); for (int n = r.upto(30); n > 0; --n) p->add(J(word(r))); return p;, return listed(x);,
   switch (r.upto(6)) { case 0: x.clear(); break; case 1: if (x.size()) x.pollFirst(); break; case 2: if (x.size()) x.set(0, J(word(r))); break; case 3: x.addFirst(J(word(r))); break; case 4: if (x.size()) x.remove(x.size() / 2); break; default: x.addLast(J(word(r))); })
OF(PrioS, PrioS *p = new PrioS(); for (int n = r.upto(30); n > 0; --n) p->add(J(word(r))); return p;, Str s; PrioS y(x); while (y.size()) s += N(y.poll()) + "|"; return s;, if (r.chance(30)) x.poll(); else x.add(J(word(r)));)
template<class M> static Str mapped(M &x) { std::map<Str, Str> m; for (const auto &e : x) m[N(e.first)] = N(e.second); Str s; for (auto &e : m) s += e.first + "=" + e.second + "|"; return s; }
OF(MapS, MapS *p = new MapS(); for (int n = r.upto(30); n > 0; --n) p->put(J(word(r)), J(word(r))); return p;, return mapped(x);,
   switch (r.upto(5)) { case 0: x.clear(); break; case 1: { MapS c = x.clone(); c.put("q", "w"); x.putAll(c); break; } case 2: x.remove(J(word(r))); break; default: x.put(J(word(r)), J(word(r))); })
OF(MapL, MapL *p = new MapL(); for (int n = r.upto(8); n > 0; --n) { ListS *l = Of<ListS>::make(r); p->put(r.upto(20), *l); delete l; } return p;,
   IntMap m; for (auto &e : x) { ListS l = e.second; m[e.first] = listed(l); } Str s; for (auto &e : m) s += std::to_string(e.first) + "=" + e.second + "|"; return s;, if (r.chance(30)) x.remove(r.upto(20)); else { ListS l; l.add(J(word(r))); x.put(r.upto(20), l); })
OF(SetS, SetS *p = new SetS(); for (int n = r.upto(30); n > 0; --n) p->add(J(word(r))); return p;, Str s; for (const S &e : x) s += N(e) + "|"; return s;, if (r.chance(10)) x.clear(); else x.add(J(word(r)));)
OF(ArrS, ArrS *p = new ArrS(); for (int n = r.upto(30); n > 0; --n) p->push(J(word(r))); return p;, Str s; for (int i = 0; i < x.length; ++i) s += N(x[i]) + "|"; return s;, if (x.length && r.chance(50)) x[x.length / 2] = J(word(r)); else x.push(J(word(r)));)
OF(ArrA, ArrA *p = new ArrA(); for (int n = r.upto(10); n > 0; --n) { Array<int> a; for (int k = r.upto(10); k > 0; --k) a.push(r.i32()); p->push(a); } return p;,
   Str s; for (int i = 0; i < x.length; ++i) { for (int k = 0; k < x[i].length; ++k) s += std::to_string(x[i][k]) + ","; s += "|"; } return s;, if (x.length && r.chance(50)) x[0].push(5); else x.push(Array<int>{1});)
OF(U::BitSet, U::BitSet *p = r.chance(50) ? new U::BitSet() : new U::BitSet(r.upto(300)); for (int n = r.upto(30); n > 0; --n) p->set(r.upto(400)); return p;, Str s; for (int i = 0; i < x.length(); ++i) s += x.get(i) ? '1' : '0'; return s + ":" + std::to_string(x.cardinality());,
   switch (r.upto(5)) { case 0: x.clear(); break; case 1: { U::BitSet o; o.set(r.upto(500)); x.andNot(o); break; } case 2: x.flip(0, 1 + r.upto(200)); break; case 3: { U::BitSet o = x.get(0, 1 + r.upto(100)); x.andNot(o); break; } default: x.set(r.upto(1000)); })
OF(U::Date, return new U::Date((long) r.range(-1000000000000LL, 4000000000000LL));, return std::to_string(x.getTime()) + N(x.toString()) + std::to_string(x.getYear()) + "/" + std::to_string(x.getDate());,
   switch (r.upto(3)) { case 0: x.setTime((long) r.range(0, 4000000000000LL)); break; case 1: x.setMinutes(r.upto(60)); break; default: x.setDate(1 + r.upto(28)); })
OF(U::UUID, return new U::UUID((long) r.i64(), (long) r.i64());, return N(x.toString());, x = U::UUID::randomUUID();)
OF(U::TimeZone, return new U::TimeZone(U::TimeZone::getTimeZone(J(word(r))));, return N(x.getID());, x.setID(J(word(r)));)
static MediaType *media(Rng &r) { U::HashMap<S, S> h; for (int n = r.upto(4); n > 0; --n) h.put(J("k" + std::to_string(r.upto(9))), J(word(r))); return new MediaType(J("t" + std::to_string(r.upto(99))), J("sub" + word(r)), h); }
OF(MediaType, return media(r);, auto h = x.getParameters(); return N(x.getType()) + "/" + N(x.getSubtype()) + mapped(h);, MediaType *m = media(r); x = *m; delete m;)
static MessageDigest *digest(Rng &r) { MessageDigest d = MessageDigest::getInstance(r.chance(50) ? "MD5" : "SHA1"); Str s = word(r); if (!s.empty()) d.update((const byte *) s.data(), (int) s.size()); return new MessageDigest(d); }
OF(MessageDigest, return digest(r);, MessageDigest y(x); byte b[32]; int n = y.getDigestLength(); y.digest(b, n); return N(x.getAlgorithm()) + Str((const char *) b, (size_t) n);,
   switch (r.upto(3)) { case 0: x.reset(); break; case 1: { MessageDigest *d = digest(r); x = *d; delete d; break; } default: x.update((const byte *) "hello world", 1 + r.upto(11)); })
OF(Throwable, Throwable c(J(word(r))); return r.chance(50) ? new Throwable(J(word(r))) : new Throwable(c);, return N(x.getMessage());, x = Throwable(J(word(r)));)
OF(Exception, return new Exception(J(word(r)));, return N(x.getMessage());, x = Exception(J(word(r)));)
OF(ArithmeticException, return new ArithmeticException(J(word(r)));, return N(x.getMessage());, x = ArithmeticException(J(word(r)));)
OF(ChmS, ChmS *p = new ChmS(); for (int n = r.upto(30); n > 0; --n) p->put(J("k" + std::to_string(n)), J(word(r))); return p;,
   Str s = std::to_string(x.size()); for (int i = 0; i < 40; ++i) { S k = J("k" + std::to_string(i)); if (x.containsKey(k)) s += std::to_string(i) + "=" + N(x.get(k)) + "|"; } return s;, if (r.chance(40)) x.remove(J("k" + std::to_string(r.upto(40)))); else x.put(J("k" + std::to_string(r.upto(40))), J(word(r)));)
static U::Random *rnd(Rng &r) { return new U::Random((long) r.i64()); }
OF(U::Random, return rnd(r);, U::Random y(x); Str s = std::to_string(y.nextLong()) + "," + num(y.nextGaussian()) + "," + num(y.nextGaussian()); return s;, switch (r.upto(3)) { case 0: x.nextGaussian(); break; case 1: x.setSeed((long) r.i64()); break; default: x.nextInt(); })

template<class T, class = void> struct Assignable : std::is_copy_assignable<T> {};
template<class T> static typename std::enable_if<std::is_copy_assignable<T>::value>::type assign(T &a, const T &b) { a = b; }
template<class T> static typename std::enable_if<!std::is_copy_assignable<T>::value>::type assign(T &, const T &) {}
// destroy an object through one of the interfaces it has, as holders of interface pointers do
template<class B, class T> static typename std::enable_if<std::is_convertible<T *, B *>::value, bool>::type via(T *p) { B *b = p; delete b; return true; }
template<class B, class T> static typename std::enable_if<!std::is_convertible<T *, B *>::value, bool>::type via(T *) { return false; }
template<class E, template<class> class L, class T> static typename std::enable_if<std::is_convertible<T *, Java::Lang::Iterable<E> *>::value, bool>::type viaElements(const L<E> *, T *p, bool wide) { return wide ? via<Java::Lang::Iterable<E>>(p) : via<U::Collection<E>>(p); }
template<class T> static bool viaElements(const void *, T *, bool) { return false; }
template<class T> static bool dispose(T *p, int how) {
    switch (how) {
        case 0: case 1: if (via<Java::Lang::Object>(p)) return true; break;
        case 2: if (via<CharSequence>(p)) return true; if (via<Java::Lang::Number>(p)) return true; break;
        case 3: if (via<Java::Lang::Comparable<T>>(p)) return true; break;
        case 4: case 5: if (viaElements(p, p, how == 4)) return true; break;
        case 6: if (via<Throwable>(p)) return true; break;
    }
    delete p;
    return false;
}
template<class T> static T pass(T x, Rng &r, bool mutate) { if (mutate) Of<T>::change(x, r); return x; }

// what went wrong, without allocating while all is well
struct Bad { Str key, msg; };
template<class T> struct Life {
    typedef Of<T> O;
    struct Slot { T *p; Str v; };
    std::vector<Slot> s;
    Rng r;
    Ctx *c;                                           // null when only the memory is watched
    explicit Life(uint64_t seed, Ctx *c) : r(seed), c(c) {}
    ~Life() { for (Slot &x : s) dispose(x.p, r.upto(9)); }
    void op(const char *n, int a = -1, int b = -1) { if (c) c->op(Str(n) + "(" + O::name() + "," + std::to_string(a) + "," + std::to_string(b) + ")"); }
    void same(T &x, const Str &want, const char *what) {
        Str got = O::value(x);
        if (c) c->eq(got, want, Str(what) + ":" + O::name()); else if (got != want) throw mon::Violation{Str(what) + ":" + O::name(), "got " + esc(got) + " expected " + esc(want)};
    }
    template<class B> void box(B &b, const std::vector<int> &from) {  // b holds copies of the slots in from
        for (int i : from) b.push_back(*s[(size_t) i].p);
        for (int i : from) if (r.chance(30)) { O::change(*s[(size_t) i].p, r); s[(size_t) i].v = O::value(*s[(size_t) i].p); }
    }
    void run(int steps) {
        for (int k = 0; k < steps; ++k) {
            int n = (int) s.size(), i = r.upto(n), j = r.upto(n), w = n == 0 ? 0 : r.upto(14);
            if (n >= 6 && w < 3) w = 13;
            switch (w) {
                case 0: { op("new"); T *p = O::make(r); s.push_back({p, ""}); s.back().v = O::value(*p); break; }
                case 1: case 2: { op("copy", i); T *p = new T(*s[(size_t) i].p); s.push_back({p, s[(size_t) i].v}); same(*p, s[(size_t) i].v, "copy-differs"); break; }
                case 3: case 4: if (std::is_copy_assignable<T>::value) { op("assign", i, j); assign(*s[(size_t) i].p, *s[(size_t) j].p); s[(size_t) i].v = s[(size_t) j].v; if (c && i == j) c->ev("self_assignments"); if (c) c->ev("assignments"); break; }   // fall through
                case 5: if (std::is_copy_assignable<T>::value) { op("assign a temporary", i); T *p = O::make(r); Str v = O::value(*p); assign(*s[(size_t) i].p, pass(*p, r, false)); delete p; s[(size_t) i].v = v; break; }   // fall through
                case 6: { op("pass by value", i); T y = pass(*s[(size_t) i].p, r, false); same(y, s[(size_t) i].v, "returned-copy-differs"); break; }
                case 7: { op("change a copy passed by value", i); T y = pass(*s[(size_t) i].p, r, true); if (r.chance(50)) O::change(y, r); if (c) c->ev("changed_copies"); break; }
                case 8: {
                    op("store in a growing container", i, j);
                    std::vector<int> f; for (int q = 1 + r.upto(9); q > 0; --q) f.push_back(r.upto(n));
                    std::vector<Str> v; for (int q : f) v.push_back(s[(size_t) q].v);
                    std::vector<T> b; box(b, f);
                    for (size_t q = 0; q < f.size(); ++q) same(b[q], v[q], "stored-copy-differs");
                    if (r.chance(50)) { std::vector<T> b2(b); b.clear(); for (size_t q = 0; q < f.size(); ++q) same(b2[q], v[q], "stored-copy-differs"); }
                    if (c) c->ev("containers");
                    break;
                }
                case 9: {
                    op("store in an Array", i, j);
                    Array<T> b; std::vector<Str> v;
                    for (int q = 1 + r.upto(6); q > 0; --q) { int x = r.upto(n); b.push(*s[(size_t) x].p); v.push_back(s[(size_t) x].v); }
                    O::change(*s[(size_t) i].p, r); s[(size_t) i].v = O::value(*s[(size_t) i].p);
                    Array<T> b2(b);
                    O::change(b[0], r);
                    for (size_t q = 0; q < v.size(); ++q) same(b2[(int) q], v[q], "stored-copy-differs");
                    break;
                }
                case 10: {
                    op("throw and catch", i);
                    try { throw T(*s[(size_t) i].p); } catch (T &e) { same(e, s[(size_t) i].v, "caught-copy-differs"); }
                    break;
                }
                case 11: case 12: op("change", i); O::change(*s[(size_t) i].p, r); s[(size_t) i].v = O::value(*s[(size_t) i].p); break;
                default: op("delete", i); if (dispose(s[(size_t) i].p, r.upto(9)) && c) c->ev("destroyed_through_a_base"); s.erase(s.begin() + i);
            }
            for (Slot &x : s) same(*x.p, x.v, "value-changed-by-another-object");
        }
        if (c) c->ev("survivors", s.size());
    }
    Str values() { Str r; for (Slot &x : s) r += x.v + ";"; return r; }
};
// ---- calls whose results are thrown away, including the ones that refuse their input half way
struct Call { const char *name; void (*run)(Rng &); };
static thread_local uint64_t sink;                    // digest of everything the calls returned
static void keep(const S &s) { sink = mon::mix(sink ^ mon::hstr(N(s))); }
struct Boom { };
struct Touchy {                                       // an element whose copies sometimes fail
    static thread_local int fuse; int *p;
    Touchy(int v = 0) : p(new int(v)) {}
    Touchy(const Touchy &o) : p(nullptr) { if (fuse > 0 && --fuse == 0) throw Boom(); p = new int(*o.p); }
    Touchy &operator=(const Touchy &o) { if (fuse > 0 && --fuse == 0) throw Boom(); *p = *o.p; return *this; }
    ~Touchy() { delete p; }
    bool operator==(const Touchy &o) const { return *p == *o.p; }
    bool operator!=(const Touchy &o) const { return *p != *o.p; }
    bool operator<(const Touchy &o) const { return *p < *o.p; }
};
thread_local int Touchy::fuse;
template<class F> static void quiet(F f) { try { f(); } catch (Boom &) {} catch (Throwable &) {} catch (std::exception &) {} catch (InterruptedException &) {} }
template<class L, class F> static void touchy(Rng &r, F add) { L *l = new L(); Touchy::fuse = r.upto(60); quiet([&]() { for (int i = r.upto(40); i >= 0; --i) add(*l, i); }); quiet([&]() { L m(*l); add(m, 7); m = *l; }); Touchy::fuse = 0; delete l; }
#define CALL(NAME, ...) {NAME, [](Rng &r) { (void) r; __VA_ARGS__ }}
static const Call CALLS[] = {
    CALL("String.split", Array<S> a = J(word(r) + "," + word(r) + ",x").split(","); keep(a[0]);),
    CALL("String.format", keep(S::format("%s-%d-%f", J(word(r)), r.upto(99), 1.5));),
    CALL("String.format-bad", keep(S::format("%d %q %", r.upto(99)));),
    CALL("String.replace", keep(J(word(r)).replace('a', 'b')); keep(J(word(r)).replaceAll("[a-c]+", "z"));),
    CALL("String.bad-regex", keep(J("abc").replaceAll("([", "x"));),
    CALL("String.getBytes", S s = J(word(r)); Array<byte> b = s.getBytes(); Array<char> ch = s.toCharArray(); keep(S(b)); sink = sink + ch.length;),
    CALL("String.case", S s = J(word(r)); keep(s.toUpperCase()); keep(s.toLowerCase()); keep(s.trim()); keep(s.concat("x")); keep(s.subString(0, s.length() / 2));),
    CALL("String.bad-index", S s = J(word(r)); keep(S::valueOf(s.charAt(-1)));),
    CALL("String.valueOf", keep(S::valueOf(r.i32())); keep(S::valueOf((long) r.i64())); keep(S::valueOf(1.5)); keep(S::valueOf('c')); keep(S::valueOf(true)); keep(S::valueOf(2.5f));),
    CALL("Integer.texts", keep(Integer::toHexString(r.i32())); keep(Integer::toBinaryString(r.i32())); keep(Integer::toString(r.i32(), 2 + r.upto(31))); sink = sink + Integer::parseInt(Integer::toString(r.i32()));),
    CALL("Integer.bad", sink = sink + Integer::parseInt(J(word(r)));),
    CALL("Long.texts", keep(Long::toHexString((long) r.i64())); keep(Long::toString((long) r.i64())); keep(Long::toBinaryString((long) r.i64())); sink = sink + Long::parseLong(J(word(r)));),
    CALL("Double.texts", keep(Double((double) r.i64() / 7).toString()); keep(Float((float) r.i32() / 7).toString()); sink = sink + (long) Double::parseDouble(J("1.25e3")).doubleValue();),
    CALL("Double.bad", sink = sink + (long) Double::parseDouble(J(word(r))).intValue();),
    CALL("Float.bad", sink = sink + (long) Float::parseFloat(J(word(r))).intValue();),
    CALL("Boolean.texts", keep(Boolean::toString(r.chance(50))); sink = sink + Boolean::parseBoolean("TRUE");),
    CALL("Integer.zero", Integer a(r.i32()); Integer z(0); sink = sink + (a / z).intValue();),
    CALL("Short.bad", sink = sink + Short::parseShort(J(word(r))).shortValue();),
    CALL("Bytes.bad", sink = sink + Bytes::parseBytes(J(word(r)));),
    CALL("StringBuilder.edits", StringBuilder b; for (int i = r.upto(30); i > 0; --i) b.append(J(word(r))); b.insert(0, J("in")); b.replace(0, 1, J(word(r))); b.deleteRange(0, 1); keep(b.toString()); keep(b.substring(0));),
    CALL("StringBuilder.search", StringBuilder b(J("ab" + word(r) + "abc")); b.append(J(word(r))); b.append(J("abab")); sink = sink + b.indexOf(J("ab")) + b.indexOf(J(word(r) + "q")) + b.indexOf(J("aba"), r.upto(9)) + b.lastIndexOf(J("ab")) + b.lastIndexOf(J(word(r) + "q")) + b.lastIndexOf(J("abc"), r.upto(20));),
    CALL("StringBuffer.search", StringBuffer b(J("ab" + word(r) + "abc")); b.append(J(word(r))); sink = sink + b.indexOf(J("ab")) + b.indexOf(J(word(r) + "q")) + b.indexOf(J("abc"), r.upto(9)) + b.lastIndexOf(J("ab")) + b.lastIndexOf(J(word(r) + "q")) + b.lastIndexOf(J("abc"), r.upto(20));),
    CALL("String.search", S s = J("ab" + word(r) + "abc"); sink = sink + s.indexOf(J("ab")) + s.lastIndexOf(J("ab")) + s.contains(J(word(r))) + s.startsWith(J("ab")) + s.endsWith(J("bc")); keep(s.replaceFirst("b+", "z")); keep(s.replaceFirst("q+", "z"));),

    CALL("String.bad-split", Array<S> a = J("a([b").split(J("([")); sink = sink + a.length;),
    CALL("StringBuilder.bad",  StringBuilder b(J(word(r))); b.append(J("x")); b.insert(999999, J("y"));),
    CALL("StringBuilder.bad-delete", StringBuilder b(J(word(r))); b.deleteCharAt(-1);),
    CALL("StringBuffer.edits", StringBuffer b; for (int i = r.upto(30); i > 0; --i) b.append(J(word(r))); b.insert(0, J("in")); b.reverse(); keep(b.toString()); keep(b.subString(0));),
    CALL("StringBuffer.bad", StringBuffer b(J(word(r))); b.insert(999999, J("y"));),
    CALL("StringBuffer.bad-length", StringBuffer b(J(word(r))); b.setLength(-1);),
    CALL("UUID", U::UUID a = U::UUID::randomUUID(), b = U::UUID::timeUUID(); keep(a.toString()); U::UUID e = U::UUID::fromString(b.toString()); keep(e.toString());),
    CALL("UUID.bad", U::UUID a = U::UUID::fromString(J(word(r))); keep(a.toString());),
    CALL("Date.texts", U::Date d((long) r.range(0, 4000000000000LL)); keep(d.toString()); keep(d.toGMTString()); keep(d.toLocaleString()); U::Date e(d.toGMTString()); sink = sink + e.getTime(); U::Date g = d.clone(); keep(g.toString());),
    CALL("Date.bad", U::Date d(J(word(r))); sink = sink + d.getTime();),
    CALL("SimpleDateFormat", SimpleDateFormat f("%Y-%m-%d %H:%M:%S"); f.setTimeZone(U::TimeZone::getTimeZone(r.chance(50) ? "GMT" : "EST5EDT")); keep(f.format(U::Date((long) r.range(0, 4000000000000LL))));),
    CALL("SimpleDateFormat.long", SimpleDateFormat f(J(word(r) + Str(500, 'x') + "%Y")); keep(f.format(U::Date(5L)));),
    CALL("MessageDigest", MessageDigest d = MessageDigest::getInstance(r.chance(50) ? "MD5" : "SHA1"); MessageDigest e(d); Str s = word(r); e.update((const byte *) s.data(), (int) s.size()); d = e; byte b[40]; sink = sink + d.digest(b, 40);),
    CALL("MessageDigest.unknown", MessageDigest d = MessageDigest::getInstance(J(word(r))); sink = sink + d.getDigestLength();),
    CALL("MessageDigest.bad", MessageDigest d = MessageDigest::getInstance("MD5"); byte b[4]; sink = sink + d.digest(b, 4);),
    CALL("Base64", Str s = word(r); Array<byte> in; for (char ch : s) in.push((byte) ch); auto e = U::Base64::getMimeEncoder(); Array<byte> o = e.encode(in); keep(U::Base64::getEncoder().encodeToString(in)); Array<byte> back = U::Base64::getMimeDecoder().decode(o); sink = sink + back.length;),
    CALL("Base64.bad", Array<byte> a = U::Base64::getDecoder().decode(J("ab!c")); sink = sink + a.length;),
    CALL("Base64.bad-out", Array<byte> in{1, 2, 3}; Array<byte> out; sink = sink + U::Base64::getEncoder().encode(in, out);),
    CALL("URLEncoder", S s = Java::Net::URLEncoder::encode(J(word(r)), "UTF-8"); keep(s); keep(Java::Net::URLDecoder::decode(s, "UTF-8"));),
    CALL("URLEncoder.unknown", keep(Java::Net::URLEncoder::encode(J(word(r)), J("no-such")));),
    CALL("URLDecoder.bad", keep(Java::Net::URLDecoder::decode(J("a%4"), "UTF-8"));),
    CALL("URL", Java::Net::URL a, b(a); keep(a.toString()); keep(b.getHost()); Java::Net::URL e(J(word(r))); keep(e.getPath()); e = a; keep(e.toString());),
    CALL("MediaType", MediaType m = MediaType::valueOf("text/x; q=1"); keep(m.getType()); MediaType n("a", "b"); sink = sink + n.isCompatible(m); keep(m.toString());),
    CALL("MediaType.bad", MediaType m = MediaType::valueOf(J(word(r))); keep(m.toString());),
    CALL("Random", U::Random x((long) r.i64()); keep(x.nextString(r.upto(60))); Array<byte> b(r.upto(30)); x.nextBytes(&b); sink = sink + (long) x.nextGaussian();),
    CALL("Random.bad", U::Random x; sink = sink + x.nextInt(-1);),
    CALL("Random.bad-text", U::Random x; keep(x.nextString(-1));),
    CALL("BitSet.bad", U::BitSet b; b.set(3); b.set(-1);),
    CALL("BitSet.bad-range", U::BitSet b(70); b.set(5, 2);),
    CALL("BitSet.bad-size", U::BitSet b(-1); sink = sink + b.size();),
    CALL("BitSet.views", U::BitSet b; for (int i = 0; i < 9; ++i) b.set(r.upto(200)); Array<long> l = b.toLongArray(); U::BitSet e = U::BitSet::valueOf(l); keep(e.toString()); U::BitSet g = b.get(3, 90); U::BitSet h = g.clone(); sink = sink + h.size();),
    CALL("ArrayList.bad", ListS l; l.add("x"); keep(l.get(5));),
    CALL("ArrayList.bad-insert", ListS l; l.add("x"); l.add(-1, "y");),
    CALL("ArrayList.misc", ListS *p = Of<ListS>::make(r); ListS q(*p); q.trimToSize(); q.remove(J("a")); Array<S> a = q.toArray(); sink = sink + a.length; delete p;),
    CALL("Vector.bad", VecS v; v.add("x"); keep(v.get(5));),
    CALL("Vector.bad-insert", VecS v; v.add("x"); v.add(9, "y");),
    CALL("Vector.misc", VecS *p = Of<VecS>::make(r); VecS q = p->clone(); Array<S> a = p->toArray(); sink = sink + a.length; q = std::initializer_list<S>{"a", "b"}; delete p;),
    CALL("Stack.empty", StackS s; keep(s.pop());),
    CALL("LinkedList.empty", LinkS l; keep(l.getFirst());),
    CALL("LinkedList.bad", LinkS l; l.add("x"); keep(l.get(5));),
    CALL("LinkedList.misc", LinkS *p = Of<LinkS>::make(r); LinkS q(*p); while (q.size()) keep(q.poll()); delete p;),
    CALL("LinkedList.nodes", LinkS *p = Of<LinkS>::make(r); p->add("x"); std::vector<Node<S>> ns; p->forEach([&](Node<S> *n) { if (r.chance(50)) ns.push_back(*n); return true; }); for (auto &n : ns) p->remove(n); while (p->size() > 3) p->remove(**p->begin()); delete p;),
    CALL("PriorityQueue.bad", PrioS p(0); sink = sink + p.size();),
    CALL("HashMap.misc", MapS *p = Of<MapS>::make(r); MapS q(*p); auto k = q.entrySet(); sink = sink + k.size(); keep(q.toString()); q.reinitialize(); q = *p; delete p;),
    CALL("Arrays", Array<int> a; for (int i = 0; i < 20; ++i) a.push(r.i32()); U::Arrays::sort(&a, a.length); Array<int> b = U::Arrays::copyOf(a, 5 + r.upto(40)); sink = sink + b.length;),
    CALL("Arrays.bad", Array<int> a{1, 2}; U::Arrays::sort(&a, 5, 9);),
    CALL("Arrays.bad-copy", Array<int> a{1, 2}; Array<int> b = U::Arrays::copyOf(a, -1); sink = sink + b.length;),
    CALL("Array.bad", Array<S> a{"x"}; keep(a[3]);),
    CALL("Array.bad-size", Array<S> a(-1L); sink = sink + a.length;),
    CALL("Math.exact", sink = sink + Math::addExact(2147483647, 1 + r.upto(4));),
    CALL("exceptions", try { try { throw ArithmeticException(J(word(r))); } catch (Exception &e) { Throwable w(J("outer"), &e); throw w; } } catch (Throwable &t) { keep(t.getMessage()); }),
    CALL("Object.toString", Object o; keep(o.toString());),
    CALL("std::vector of failing copies", touchy<std::vector<Touchy>>(r, [](std::vector<Touchy> &l, int i) { l.push_back(Touchy(i)); });),
    CALL("ArrayList of failing copies", touchy<U::ArrayList<Touchy>>(r, [](U::ArrayList<Touchy> &l, int i) { l.add(Touchy(i)); });),
    CALL("LinkedList of failing copies", touchy<U::LinkedList<Touchy>>(r, [](U::LinkedList<Touchy> &l, int i) { l.add(Touchy(i)); });),
    CALL("Vector of failing copies", touchy<U::Vector<Touchy>>(r, [](U::Vector<Touchy> &l, int i) { l.add(Touchy(i)); });),
    CALL("HashMap of failing copies", touchy<U::HashMap<int, Touchy>>(r, [](U::HashMap<int, Touchy> &l, int i) { l.put(i, Touchy(i)); });),
    CALL("Array of failing copies", touchy<Array<Touchy>>(r, [](Array<Touchy> &l, int i) { l.push(Touchy(i)); });),
    CALL("threads", for (int i = 0; i < 3; ++i) { int n = 0; Thread t([&n]() { n = 1; }); t.start(); t.join(); sink = sink + n; }),
    CALL("Semaphore", CC::Semaphore s(2); s.acquire(); s.tryAcquire(5); s.release(); sink = sink + s.availablePermits();),
    CALL("ConcurrentLinkedQueue", CC::ConcurrentLinkedQueue<S> q; for (int i = r.upto(90); i >= 0; --i) q.add(J(word(r))); for (int i = r.upto(90); i >= 0; --i) keep(q.poll());),
};
static const int NCALLS = (int) (sizeof CALLS / sizeof *CALLS);
#endif
