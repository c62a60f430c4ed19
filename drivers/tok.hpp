// Element types for container drivers.  Tok is an instrumented element: it
// counts live instances and notices use or destruction of a dead instance.
#ifndef VERIF_TOK_HPP
#define VERIF_TOK_HPP
#include "lib.hpp"
#include <atomic>
struct Tok : Java::Lang::Object {
    static const uint32_t LIVE = 0x70ce11ed, DEAD = 0xdeadf00d;
    long v; uint32_t magic;
    static std::atomic<long> &live() { static std::atomic<long> n(0); return n; }
    static std::atomic<const char *> &bad() { static std::atomic<const char *> b(nullptr); return b; }
    void use(const char *what) const { if (magic != LIVE) bad() = what; }
    Tok(long x = 0) : v(x), magic(LIVE) { live().fetch_add(1, std::memory_order_relaxed); }
    Tok(const Tok &o) : v(o.v), magic(LIVE) { o.use("copied a dead element"); live().fetch_add(1, std::memory_order_relaxed); }
    Tok &operator=(const Tok &o) { use("assigned to a dead element"); o.use("assigned from a dead element"); v = o.v; return *this; }
    ~Tok() { if (magic != LIVE) { bad() = "destroyed an element twice"; return; } magic = DEAD; live().fetch_sub(1, std::memory_order_relaxed); }
    bool operator==(const Tok &o) const { use("compared a dead element"); o.use("compared a dead element"); return v == o.v; }
    bool operator!=(const Tok &o) const { return !(*this == o); }
    bool operator<(const Tok &o) const { use("compared a dead element"); o.use("compared a dead element"); return v < o.v; }
    bool operator>(const Tok &o) const { return o < *this; }
    bool operator<=(const Tok &o) const { return !(o < *this); }
    bool operator>=(const Tok &o) const { return !(*this < o); }
    int hashCode() const { use("hashed a dead element"); return (int) v; }
    int compareTo(const Tok &o) const { return *this < o ? -1 : o < *this ? 1 : 0; }
    Java::Lang::String toString() const { use("printed a dead element"); return Java::Lang::String(std::to_string(v)); }
};
inline std::ostream &operator<<(std::ostream &os, const Tok &t) { return os << t.v; }
namespace std { template<> struct hash<Tok> { size_t operator()(const Tok &t) const { return (size_t) t.hashCode(); } }; }

template<class E> struct El;
template<> struct El<Java::Lang::Integer> {
    static const char *name() { return "Integer"; }
    static Java::Lang::Integer make(int i) { return Java::Lang::Integer(i); }
    static int id(const Java::Lang::Integer &e) { return e.intValue(); }
    static Str text(int i) { return std::to_string(i); }
    static Str raw(int i) { return std::to_string(i); }
};
template<> struct El<Tok> {
    static const char *name() { return "Tok"; }
    static Tok make(int i) { return Tok(i); }
    static int id(const Tok &e) { e.use("read a dead element"); return (int) e.v; }
    static Str text(int i) { return std::to_string(i); }
    static Str raw(int i) { return std::to_string(i); }
};
template<> struct El<Java::Lang::String> {          // "k<i>", every 7th one empty-padded and long
    static const char *name() { return "String"; }
    static Str raw(int i) { return i % 7 == 3 ? "key-with-a-long-text-that-is-not-inlined-" + std::to_string(i) : "k" + std::to_string(i); }
    static Java::Lang::String make(int i) { return J(raw(i)); }
    static int id(const Java::Lang::String &e) {
        Str s = N(e);
        size_t p = s.find_last_not_of("0123456789");
        // the number is preceded by 'k' or by "inlined-" (and perhaps its own minus sign)
        if (p != Str::npos && s[p] == '-' && (p == 0 || s[p - 1] == 'k' || s[p - 1] == '-')) --p;
        int i = atoi(s.c_str() + p + 1);
        if (raw(i) != s) throw mon::Violation{"element-content", "element is " + esc(s)};
        return i;
    }
    static Str text(int i) { return "\"" + raw(i) + "\""; }
};
inline void tokBalance(mon::Ctx &c, long before, const char *key) {
    c.check(Tok::bad() == nullptr, Str(key) + ".element-lifetime", Tok::bad() ? Tok::bad().load() : "");
    c.check(Tok::live() == before, Str(key) + ".element-conservation", show(Tok::live() - before) + " elements left behind");
}
#endif
