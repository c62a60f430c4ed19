// C01: Base64 encoders and decoders against RFC 4648 / RFC 2045 written from scratch.
#include "lib.hpp"
using mon::Ctx;
using mon::Rng;
using Java::Util::Base64;
typedef unsigned char byte_t;
static const Str STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const Str URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

static Array<byte> AB(const Str &s) { Array<byte> a; for (char ch : s) a.push((byte) ch); return a; }
static Str SB(const Array<byte> &a) { Str r; for (int i = 0; i < a.length; ++i) r += (char) a.get(i); return r; }

// bit stream model: 6 bits at a time
static Str enc(const Str &s, const Str &al, bool pad, int line, const Str &sep) {
    Str digits;
    unsigned acc = 0; int bits = 0;
    for (unsigned char ch : s) { acc = (acc << 8) | ch; bits += 8; while (bits >= 6) { bits -= 6; digits += al[(acc >> bits) & 63]; } acc &= (1u << bits) - 1; }
    if (bits) digits += al[(acc << (6 - bits)) & 63];
    if (pad) while (digits.size() % 4) digits += '=';
    if (line <= 0) return digits;
    Str r;
    for (size_t i = 0; i < digits.size(); ++i) { if (i && i % (size_t) line == 0) r += sep; r += digits[i]; }
    return r;
}
static bool dec(const Str &s, const Str &al, bool mime, Str &out) {
    Str digits; size_t i = 0;
    out.clear();
    if (s.size() == 1 && !mime) return false;
    for (; i < s.size() && s[i] != '='; ++i) {
        if (al.find(s[i]) == Str::npos) { if (mime) continue; return false; }
        digits += s[i];
    }
    size_t r = digits.size() % 4;
    if (r == 1) return false;
    if (i < s.size()) {                              // at the first '='
        ++i;
        if (r == 0) return false;
        if (r == 2) { if (i >= s.size() || s[i] != '=') return false; ++i; }
        for (; i < s.size(); ++i) if (!mime || al.find(s[i]) != Str::npos) return false;
    }
    unsigned acc = 0; int bits = 0;
    for (char ch : digits) { acc = (acc << 6) | (unsigned) al.find(ch); bits += 6; if (bits >= 8) { bits -= 8; out += (char) ((acc >> bits) & 255); acc &= (1u << bits) - 1; } }
    return true;
}
static Str message(Ctx &c, int max) {
    int n = c.r.size(max);
    Str s;
    int style = c.r.upto(5);
    for (int i = 0; i < n; ++i) s += style == 0 ? (char) c.r.upto(256) : style == 1 ? (char) (c.r.chance(50) ? 0xff : 0) : style == 2 ? (char) 0xfb : style == 3 ? (char) ('a' + c.r.upto(26)) : (char) (128 + c.r.upto(128));
    return s;
}
struct Codec { int which; Base64::Encoder e; Base64::Decoder d; Str al, sep; int line; bool pad, mime; };
static Codec codec(Ctx &c) {
    int w = c.r.upto(4);
    bool pad = c.r.chance(70);
    switch (w) {
        case 0: { Codec k{w, Base64::getEncoder(), Base64::getDecoder(), STD, "", 0, pad, false}; if (!pad) return Codec{w, k.e.withoutPadding(), k.d, STD, "", 0, false, false}; return k; }
        case 1: return Codec{w, pad ? Base64::getUrlEncoder() : Base64::getUrlEncoder().withoutPadding(), Base64::getUrlDecoder(), URL, "", 0, pad, false};
        case 2: return Codec{w, pad ? Base64::getMimeEncoder() : Base64::getMimeEncoder().withoutPadding(), Base64::getMimeDecoder(), STD, "\r\n", 76, pad, true};
        default: {
            static const std::vector<int> lens = {-5, -1, 0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 16, 60, 64, 72, 75, 76, 77, 80, 1000};
            int len = c.r.chance(60) ? c.r.pick(lens) : (int) c.r.range(-2, 120);
            Str sep;
            int k = c.r.upto(4);
            for (int i = 0; i < k; ++i) { char ch; do ch = (char) c.r.upto(256); while (STD.find(ch) != Str::npos || ch == '='); sep += ch; }
            if (c.r.chance(30)) sep = "\n";
            OP("getMimeEncoder", len, sep);
            Base64::Encoder e = Base64::getMimeEncoder(len, AB(sep));
            c.ev(len > 0 && len < 4 ? "short_lines" : len % 4 ? "rounded_lines" : "custom_lines");
            return Codec{w, pad ? e : e.withoutPadding(), Base64::getMimeDecoder(), STD, sep, len < 4 ? 0 : len / 4 * 4, pad, true};
        }
    }
}
WORKLOAD(roundtrip, 60000, 2000000) {
    Codec k = codec(c);
    Str m = message(c, c.r.chance(10) ? 700 : 80);
    OP("encode", k.which, k.pad, m);
    Str want = enc(m, k.al, k.pad, k.line, k.sep);
    Array<byte> in = AB(m);
    Str got = SB(k.e.encode(in));
    c.eq(got, want, "Base64.encode");
    c.eq(SB(in), m, "Base64.encode-changes-input");
    c.eq(N(k.e.encodeToString(in)), want, "Base64.encodeToString");
    int room = (int) want.size() + c.r.upto(4);
    Array<byte> out(room);
    for (int i = 0; i < room; ++i) out[i] = '*';
    c.eq(k.e.encode(in, out), (int) want.size(), "Base64.encode-into-length");
    c.eq(SB(out), want + Str((size_t) room - want.size(), '*'), "Base64.encode-into");
    if (!want.empty()) {                             // no room: refused, nothing written
        Array<byte> small((int) want.size() - 1 - c.r.upto((int) std::min<size_t>(want.size(), 4)));
        for (int i = 0; i < small.length; ++i) small[i] = '*';
        Str ex = thrown([&]() { k.e.encode(in, small); });
        c.check(ex != "" && SB(small) == Str((size_t) small.length, '*'), "Base64.encode-into-too-small", ex == "" ? "accepted" : "wrote before refusing");
        c.ev("small_outputs");
    }
    // the matching decoder gives the bytes back
    Array<byte> text = AB(got);
    c.eq(SB(k.d.decode(text)), m, "Base64.decode-inverts");
    c.eq(SB(text), got, "Base64.decode-changes-input");
    if (got.find('\0') == Str::npos) c.eq(SB(k.d.decode(J(got))), m, "Base64.decode(String)-inverts");
    Array<byte> dst((int) m.size() + c.r.upto(3));
    for (int i = 0; i < dst.length; ++i) dst[i] = '*';
    c.eq(k.d.decode(text, dst), (int) m.size(), "Base64.decode-into-length");
    c.eq(SB(dst), m + Str((size_t) dst.length - m.size(), '*'), "Base64.decode-into");
    if (!m.empty()) {
        Array<byte> small((int) m.size() - 1);
        for (int i = 0; i < small.length; ++i) small[i] = '*';
        Str ex = thrown([&]() { k.d.decode(text, small); });
        c.check(ex != "" && SB(small) == Str((size_t) small.length, '*'), "Base64.decode-into-too-small", ex == "" ? "accepted" : "wrote before refusing");
    }
    if (m.size() % 3) c.ev("partial_groups");
    if (k.line && (int) want.size() > k.line) c.ev("broken_lines");
}
// well formed, damaged and random texts through the three decoders
WORKLOAD(decode, 120000, 4000000) {
    for (int rep = 0; rep < 2; ++rep) {
        int w = c.r.upto(3);
        const Str &al = w == 1 ? URL : STD;
        Str s;
        if (c.r.chance(30)) {                        // random over digits, '=', and foreign bytes
            int n = c.r.size(24);
            for (int i = 0; i < n; ++i) s += c.r.chance(70) ? al[(size_t) c.r.upto(64)] : c.r.chance(40) ? '=' : (char) c.r.upto(256);
        } else {
            s = enc(message(c, 60), al, c.r.chance(75), w == 2 && c.r.chance(60) ? 4 * (1 + c.r.upto(19)) : 0, "\r\n");
            int edits = c.r.upto(4);
            for (int e = 0; e < edits; ++e) {
                size_t p = (size_t) c.r.upto((int) s.size() + 1);
                if (c.r.chance(40) && s.size() > 3) p = s.size() - (size_t) c.r.upto(4);
                char ch = c.r.chance(30) ? '=' : c.r.chance(40) ? al[(size_t) c.r.upto(64)] : c.r.chance(30) ? "\r\n -_+/,."[c.r.upto(9)] : (char) c.r.upto(256);
                switch (c.r.upto(3)) { case 0: s.insert(p, 1, ch); break; case 1: if (p < s.size()) s.erase(p, 1); break; default: if (p < s.size()) s[p] = ch; }
            }
        }
        OP("decode", w, s);
        Base64::Decoder d = w == 0 ? Base64::getDecoder() : w == 1 ? Base64::getUrlDecoder() : Base64::getMimeDecoder();
        Str want, got;
        bool ok = dec(s, al, w == 2, want);
        Array<byte> in = AB(s);
        Str ex;
        int form = c.r.upto(3);
        if (form == 1 && s.find('\0') != Str::npos) form = 0;
        if (form == 0) ex = thrown([&]() { got = SB(d.decode(in)); });
        else if (form == 1) ex = thrown([&]() { got = SB(d.decode(J(s))); });
        else { Array<byte> dst((int) s.size() + 3); ex = thrown([&]() { int n = d.decode(in, dst); got = SB(dst).substr(0, (size_t) n); }); }
        if (ok) { c.check(ex == "", "Base64.decode-rejects-valid", ex); c.eq(got, want, "Base64.decode-value"); c.ev(w == 2 ? "mime_accepted" : "accepted"); }
        else { c.eq(ex, Str("IllegalArgumentException"), "Base64.decode-accepts-malformed"); c.ev(w == 2 ? "mime_rejected" : "rejected"); }
    }
}
// separators that contain base64 characters are refused
WORKLOAD(separators, 3000, 60000) {
    Str sep;
    int k = c.r.upto(5);
    bool bad = false;
    for (int i = 0; i < k; ++i) { char ch = c.r.chance(70) ? (char) c.r.upto(256) : STD[(size_t) c.r.upto(64)]; sep += ch; if (STD.find(ch) != Str::npos || ch == '=') bad = true; }
    int len = (int) c.r.range(-3, 100);
    OP("getMimeEncoder", len, sep);
    Str ex = thrown([&]() { Base64::getMimeEncoder(len, AB(sep)); });
    if (sep.find('=') != Str::npos && ex != "") { c.ev("separator_rejected"); return; }
    c.eq(ex, bad ? Str("IllegalArgumentException") : Str(""), "Base64.getMimeEncoder-separator");
    c.ev(bad ? "separator_rejected" : "separator_accepted");
}
MON_MAIN
