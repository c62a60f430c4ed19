// Glue between the drivers and the library under test (public API only).
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP
#include "library.hpp"
#include "../mon/mon.hpp"
typedef std::string Str;
using mon::show;
using mon::esc;
using mon::thrown;
inline Java::Lang::String J(const Str &s) { return Java::Lang::String(s); }
// full content, NUL-safe, through two independent accessors that must agree
inline Str N(const Java::Lang::String &s) {
    Str a = s.toSTLString();
    const char *p = s.toCharPointer();
    Str b(p, (size_t) s.length());
    if (a != b || p[s.length()] != 0 || s.getSize() != s.length())
        throw mon::Violation{"String.accessors-disagree", "toSTLString " + esc(a) + " toCharPointer " + esc(b)};
    return a;
}
inline int sgn(long v) { return v < 0 ? -1 : v > 0; }
template<class T> std::vector<T> V(const Array<T> &a) {
    std::vector<T> r;
    for (int i = 0; i < a.length; ++i) r.push_back(a.get(i));
    return r;
}
inline std::vector<Str> VS(const Array<Java::Lang::String> &a) {
    std::vector<Str> r;
    for (int i = 0; i < a.length; ++i) r.push_back(N(a.get(i)));
    return r;
}
template<class T> Array<T> A(const std::vector<T> &v) { Array<T> a; for (const auto &x : v) a.push(x); return a; }
template<class... T> std::string args(const T &... v) {
    std::vector<std::string> p = {show(v)...};
    std::string r = "(";
    for (size_t i = 0; i < p.size(); ++i) r += (i ? "," : "") + p[i];
    return r + ")";
}
#define OP(NAME, ...) c.op(std::string(NAME) + args(__VA_ARGS__))
// patterns with nested borders, in texts made of their prefixes: what a table-driven search has to get right
static inline Str bordered(mon::Ctx &c, Str &t) {
    Str p(1, "ab"[c.r.upto(2)]);
    for (int n = 1 + c.r.upto(4); n > 0 && p.size() < 16; --n) p += c.r.pick(std::vector<Str>{"", "a", "b", "ab"}) + p;
    if (c.r.chance(60)) p += "abc"[c.r.upto(3)];
    for (int n = 1 + c.r.upto(6); n > 0; --n) { t += c.r.chance(20) ? p : p.substr(0, c.r.upto((int) p.size() + 1)); if (c.r.chance(20)) t += "abc"[c.r.upto(3)]; }
    return p;
}
#endif
