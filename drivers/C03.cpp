// C03: URLEncoder / URLDecoder against application/x-www-form-urlencoded written from scratch over bytes.
#include "lib.hpp"
using mon::Ctx;
using mon::Rng;
using Java::Net::URLDecoder;
using Java::Net::URLEncoder;
static int kind(unsigned char ch) {                        // 0 escaped, 1 literal, 2 space
    static const Str lit = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~";
    return ch == ' ' ? 2 : ch && lit.find((char) ch) != Str::npos ? 1 : 0;
}
static Str enc(const Str &s) {
    Str r; char b[4];
    for (unsigned char ch : s) switch (kind(ch)) { case 1: r += (char) ch; break; case 2: r += '+'; break; default: snprintf(b, 4, "%%%02x", ch); r += b; }
    return r;
}
static int hexv(char ch) { const char *d = "0123456789abcdefABCDEF"; const char *p = ch ? strchr(d, ch) : nullptr; return !p ? -1 : p - d < 16 ? (int) (p - d) : (int) (p - d) - 6; }
static bool dec(const Str &s, Str &r) {
    r.clear();
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '+') r += ' ';
        else if (s[i] != '%') r += s[i];
        else {
            int h = i + 2 < s.size() ? hexv(s[i + 1]) : -1, l = i + 2 < s.size() ? hexv(s[i + 2]) : -1;
            if (h < 0 || l < 0) return false;
            r += (char) (h * 16 + l);
            i += 2;
        }
    }
    return true;
}
static Str message(Rng &r, int max) {
    int n = r.size(max), style = r.upto(5);
    Str s;
    for (int i = 0; i < n; ++i) s += style == 0 ? (char) r.u64() : style == 1 ? "%+ &=?/\0~*-_.a0Z"[r.upto(16)] : style == 2 ? (char) (128 + r.upto(128)) : style == 3 ? (char) (32 + r.upto(95)) : (char) r.upto(33);
    return s;
}
static Str scheme(Rng &r) { Str s = "utf-8"; for (char &ch : s) if (r.chance(50)) ch = (char) toupper(ch); return s; }

WORKLOAD(roundtrip, 60000, 2000000) {
    Str m = message(c.r, 200), e = enc(m);
    OP("encode", m);
    Java::Lang::String src = J(m);
    Java::Lang::String got = URLEncoder::encode(src);
    c.eq(N(got), e, "URLEncoder.encode");
    c.eq(N(src), m, "URLEncoder.encode-changes-input");
    if (c.r.chance(20)) { Str u = scheme(c.r); OP("encode", u); c.eq(N(URLEncoder::encode(src, J(u))), e, "URLEncoder.encode(UTF-8)"); c.eq(N(URLDecoder::decode(J(e), J(u))), m, "URLDecoder.decode(UTF-8)"); }
    c.eq(N(URLDecoder::decode(got)), m, "URLDecoder.decode-inverts");
    c.eq(N(got), e, "URLDecoder.decode-changes-input");
    for (char ch : m) { if (!ch) c.ev("nul_bytes"); if (ch < 0) c.ev("high_bytes"); if (ch == '+' || ch == '%') c.ev("escaped_specials"); }
}
WORKLOAD(every_byte, 256, 2560) {
    Str m(1, (char) (c.idx & 255));
    OP("byte", m);
    c.eq(N(URLEncoder::encode(J(m))), enc(m), "URLEncoder.encode");
    char b[4];
    for (const char *f : {"%%%02x", "%%%02X"}) { snprintf(b, 4, f, (unsigned) (c.idx & 255)); c.eq(N(URLDecoder::decode(J(b))), m, "URLDecoder.decode"); }
    c.ev("bytes_swept");
}
// well formed texts in either hex case, and damaged ones
WORKLOAD(decode, 80000, 3000000) {
    Str s;
    int n = c.r.size(60);
    for (int i = 0; i < n; ++i) {
        switch (c.r.upto(5)) {
            case 0: s += '+'; break;
            case 1: case 2: s += '%'; s += "0123456789abcdefABCDEF"[c.r.upto(22)]; s += "0123456789abcdefABCDEF"[c.r.upto(22)]; break;
            case 3: s += (char) (c.r.chance(80) ? 33 + c.r.upto(94) : c.r.upto(256)); if (s.back() == '%') s.pop_back(); break;
            default: s += (char) ('a' + c.r.upto(26));
        }
    }
    if (c.r.chance(40)) {
        size_t p = c.r.chance(40) ? s.size() : (size_t) c.r.upto((int) s.size() + 1);
        Str bad = c.r.pick(std::vector<Str>{"%", "%4", "%g0", "%0g", "%%", "%/9", "%9:", "%@0", "%0`", "%-1", "% 1", "%+1", "%1+", "%0x", "%x0"});
        if (c.r.chance(20)) { bad = "%"; bad += (char) c.r.u64(); bad += (char) c.r.u64(); }
        s.insert(p, bad);
    }
    OP("decode", s);
    Str want, got;
    bool ok = dec(s, want);
    Java::Lang::String in = J(s);
    Str ex = thrown([&]() { got = N(URLDecoder::decode(in)); });
    c.eq(N(in), s, "URLDecoder.decode-changes-input");
    if (ok) { c.eq(ex, Str(""), "URLDecoder.rejects-valid"); c.eq(got, want, "URLDecoder.decode"); c.ev("accepted"); }
    else { c.eq(ex, Str("IllegalArgumentException"), "URLDecoder.accepts-malformed"); c.ev("malformed_rejected"); if (s.size() > 1 && (s[s.size() - 1] == '%' || s[s.size() - 2] == '%')) c.ev("truncated_escapes"); }
}
WORKLOAD(encodings, 400, 4000) {
    Str name = c.r.pick(std::vector<Str>{"", "UTF-0", "UTF-80", "UTF", "UTF-16", "US-ASCII", "latin1", "UTF_8", " UTF-8"}), m = message(c.r, 20);
    OP("encoding", name, m);
    if (c.r.chance(50)) c.eq(thrown([&]() { URLEncoder::encode(J(m), J(name)); }), Str("UnsupportedEncodingException"), "URLEncoder.unknown-encoding");
    else c.eq(thrown([&]() { URLDecoder::decode(J(enc(m)), J(name)); }), Str("UnsupportedEncodingException"), "URLDecoder.unknown-encoding");
    c.ev("unknown_encodings");
}
MON_MAIN
