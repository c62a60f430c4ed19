// M01: MediaType construction, parsing, printing and compatibility.
#include "lib.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
using mon::Ctx;
using mon::Rng;
using Javax::Ws::Rs::Core::MediaType;
using Java::Util::HashMap;
typedef Java::Lang::String S;
static Str token(Rng &r, bool slash) {
    static const std::vector<Str> known = {"application", "text", "image", "json", "xml", "html", "plain", "form-data", "x-www-form-urlencoded", "octet-stream", "*"};
    if (r.chance(60)) return r.pick(known);
    int n = 1 + r.upto(6);
    Str s;
    for (int i = 0; i < n; ++i) s += slash ? "abz09-._+/*;= "[r.upto(14)] : "abz09-._"[r.upto(8)];
    return s;
}
static Str subtype(Rng &r) {                             // with a few short alphabets so that suffixes of several parts meet
    switch (r.upto(6)) { case 5: { Str s = r.pick(std::vector<Str>{"*", "a", "b"}); for (int n = r.upto(4); n > 0; --n) s += Str("+") + "ab"[r.upto(2)]; return s; } case 0: return "*"; case 1: return "*+" + token(r, false); case 2: return token(r, false) + "+" + r.pick(std::vector<Str>{"xml", "json", "zip"}); case 3: return r.pick(std::vector<Str>{"*+xml", "*+json", "atom+xml", "svg+xml", "vnd+json", "xml", "json"}); default: return token(r, false); }
}
static void parts(Ctx &c, MediaType &m, const Str &t, const Str &s, const char *how) {
    c.eq(N(m.getType()), t, Str("MediaType.getType ") + how);
    c.eq(N(m.getSubtype()), s, Str("MediaType.getSubtype ") + how);
    c.eq(Str(m.toString()), t + "/" + s, Str("MediaType.toString ") + how);
    c.eq((bool) m.isWildcardType(), t == "*", "MediaType.isWildcardType");
    c.eq((bool) m.isWildcardSubtype(), s == "*" || s.substr(0, 2) == "*+", "MediaType.isWildcardSubtype");
}
static bool legal(const Str &t, const Str &s) { return !t.empty() && !s.empty() && !(t == "*" && s != "*"); }
static Str suffix(const Str &s) { size_t p = s.find('+'); return p == Str::npos ? "" : s.substr(p); }
static bool compatible(const Str &t, const Str &s, const Str &t2, const Str &s2) {
    if (t == "*" || t2 == "*") return true;
    if (t != t2) return false;
    if (s == s2 || s == "*" || s2 == "*") return true;
    return (s.substr(0, 2) == "*+" || s2.substr(0, 2) == "*+") && suffix(s) == suffix(s2);
}
WORKLOAD(build, 40000, 1000000) {
    Str t = c.r.chance(8) ? "" : token(c.r, false), s = c.r.chance(8) ? "" : subtype(c.r);
    int form = c.r.upto(2);
    OP("MediaType", form, t, s);
    HashMap<S, S> ps; std::map<Str, Str> pm;
    if (form) { int n = c.r.upto(4); for (int i = 0; i < n; ++i) { Str k = token(c.r, true), v = token(c.r, true); ps.put(J(k), J(v)); pm[k] = v; } }
    Str ex = thrown([&]() {
        MediaType m = form ? MediaType(J(t), J(s), ps) : MediaType(J(t), J(s));
        ps.put(J("later"), J("x"));                   // the media type keeps its own parameters
        c.check(legal(t, s), "MediaType.accepts-illegal", t + "/" + s);
        parts(c, m, t, s, "built");
        MediaType k(m);
        MediaType a;
        parts(c, a, "*", "*", "default");
        a = k;
        for (MediaType *x : {&m, &k, &a}) {
            parts(c, *x, t, s, "copied");
            c.eq(x->getParameters().size(), (int) pm.size(), "MediaType.getParameters-size");
            for (auto &kv : pm) c.eq(N(x->getParameters().get(J(kv.first))), kv.second, "MediaType.getParameters");
        }
        MediaType v = MediaType::valueOf(S(m.toString()));
        parts(c, v, t, s, "of valueOf(toString)");
        c.check(v.isCompatible(m) && m.isCompatible(v) && m.isCompatible(m), "MediaType.isCompatible-reflexive", t + "/" + s);
        if (!pm.empty()) c.ev("parameters");
    });
    c.eq(ex, legal(t, s) ? Str("") : Str("MediaTypeException"), "MediaType.constructor");
    c.ev(legal(t, s) ? "built" : "refused");
}
WORKLOAD(compatible_pairs, 60000, 2000000) {
    Str t, s, t2, s2;
    do { t = token(c.r, false); s = subtype(c.r); } while (!legal(t, s));
    do { t2 = c.r.chance(70) ? t : token(c.r, false); s2 = c.r.chance(20) ? s : subtype(c.r); } while (!legal(t2, s2));
    OP("isCompatible", t, s, t2, s2);
    MediaType a(J(t), J(s)), b(J(t2), J(s2));
    bool want = compatible(t, s, t2, s2);
    c.eq((bool) a.isCompatible(b), want, "MediaType.isCompatible");
    c.eq((bool) b.isCompatible(a), want, "MediaType.isCompatible-symmetric");
    parts(c, a, t, s, "after isCompatible");
    c.ev(want ? "compatible" : "incompatible");
    if (t == t2 && s != s2 && (s.substr(0, 2) == "*+" || s2.substr(0, 2) == "*+")) {
        c.ev(want ? "suffix_matches" : "suffix_mismatches");
        if (want && std::count(s.begin(), s.end(), '+') > 1) c.ev("suffixes_of_several_parts");
    }
}
WORKLOAD(texts, 60000, 2000000) {
    Str s;
    switch (c.r.upto(4)) {
        case 0: { int n = c.r.upto(14); for (int i = 0; i < n; ++i) s += "ab/*+; =\t\n"[c.r.upto(10)]; break; }
        default: s = token(c.r, false) + "/" + subtype(c.r);
    }
    if (c.r.chance(30)) s = Str((size_t) c.r.upto(3), ' ') + s + Str((size_t) c.r.upto(3), c.r.chance(50) ? ' ' : '\t');
    if (c.r.chance(30)) s += c.r.pick(std::vector<Str>{";charset=utf-8", "; q=0.5", ";", ";;a/b", " ;x=/"});
    if (c.r.chance(5)) s = c.r.pick(std::vector<Str>{"", "*", " * ", "/", "a/", "/a", "*/*", "*/a", "a", ";", ";a/b", "a/b/c", " / "});
    OP("valueOf", s);
    Str f = s.substr(0, s.find(';'));
    while (!f.empty() && (unsigned char) f.back() <= ' ') f.pop_back();
    while (!f.empty() && (unsigned char) f[0] <= ' ') f.erase(0, 1);
    if (f == "*") f = "*/*";
    size_t p = f.find('/');
    Str t = f.substr(0, p == Str::npos ? 0 : p), u = p == Str::npos ? "" : f.substr(p + 1);
    S in = J(s);
    Str ex = thrown([&]() { MediaType m = MediaType::valueOf(in); c.check(legal(t, u), "MediaType.valueOf-accepts-illegal", esc(s)); parts(c, m, t, u, "of valueOf"); });
    c.eq(ex, legal(t, u) ? Str("") : Str("MediaTypeException"), "MediaType.valueOf");
    c.eq(N(in), s, "MediaType.valueOf-changes-input");
    c.ev(legal(t, u) ? "texts_accepted" : "texts_refused");
    if (s.find(';') != Str::npos && legal(t, u)) c.ev("parameters_cut");
}
WORKLOAD(constants, 12, 12) {
    struct K { const S *text; const MediaType *type; const char *want; };
    static const K ks[] = {
        {&MediaType::APPLICATION_ATOM_XML, &MediaType::APPLICATION_ATOM_XML_TYPE, "application/atom+xml"},
        {&MediaType::APPLICATION_FORM_URLENCODED, &MediaType::APPLICATION_FORM_URLENCODED_TYPE, "application/x-www-form-urlencoded"},
        {&MediaType::APPLICATION_JSON, &MediaType::APPLICATION_JSON_TYPE, "application/json"},
        {&MediaType::APPLICATION_OCTET_STREAM, &MediaType::APPLICATION_OCTET_STREAM_TYPE, "application/octet-stream"},
        {&MediaType::APPLICATION_SVG_XML, &MediaType::APPLICATION_SVG_XML_TYPE, "application/svg+xml"},
        {&MediaType::APPLICATION_XHTML_XML, &MediaType::APPLICATION_XHTML_XML_TYPE, "application/xhtml+xml"},
        {&MediaType::APPLICATION_XML, &MediaType::APPLICATION_XML_TYPE, "application/xml"},
        {&MediaType::MULTIPART_FORM_DATA, &MediaType::MULTIPART_FORM_DATA_TYPE, "multipart/form-data"},
        {&MediaType::TEXT_HTML, &MediaType::TEXT_HTML_TYPE, "text/html"},
        {&MediaType::TEXT_PLAIN, &MediaType::TEXT_PLAIN_TYPE, "text/plain"},
        {&MediaType::TEXT_XML, &MediaType::TEXT_XML_TYPE, "text/xml"},
        {&MediaType::WILDCARD, &MediaType::WILDCARD_TYPE, "*/*"}};
    const K &k = ks[c.idx % 12];
    OP("constant", Str(k.want));
    c.eq(N(*k.text), Str(k.want), "MediaType.constant");
    Str w = k.want; size_t p = w.find('/');
    MediaType m(*k.type);
    parts(c, m, w.substr(0, p), w.substr(p + 1), "constant");
    c.ev("constants");
}
MON_MAIN
