// C02: MessageDigest against MD5 (RFC 1321) and SHA-1 (FIPS 180) written from scratch over the whole padded message.
#include "lib.hpp"
#include "../mon/conc.hpp"
using mon::Ctx;
using mon::Rng;
using Java::Security::MessageDigest;
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PLAIN(n) 0
#else
#define PLAIN(n) (n)
#endif
static uint32_t rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static Str padded(Str m, bool big) {
    uint64_t bits = (uint64_t) m.size() * 8;
    m += (char) 0x80;
    while (m.size() % 64 != 56) m += (char) 0;
    for (int i = 0; i < 8; ++i) m += (char) (bits >> (big ? 56 - 8 * i : 8 * i));
    return m;
}
static Str md5(const Str &msg) {
    static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
    static uint32_t K[64];
    static const bool ready = [] { for (int i = 0; i < 64; ++i) K[i] = (uint32_t) (int64_t) std::floor(std::fabs(std::sin((double) i + 1)) * 4294967296.0); return true; }();
    (void) ready;
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    Str m = padded(msg, false);
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[16], v[4] = {h[0], h[1], h[2], h[3]};
        for (int i = 0; i < 16; ++i) { w[i] = 0; for (int k = 0; k < 4; ++k) w[i] |= (uint32_t) (unsigned char) m[o + 4 * (size_t) i + (size_t) k] << (8 * k); }
        for (int i = 0; i < 64; ++i) {
            uint32_t f, g;
            switch (i / 16) {
                case 0: f = (v[1] & v[2]) | (~v[1] & v[3]); g = (uint32_t) i; break;
                case 1: f = (v[3] & v[1]) | (~v[3] & v[2]); g = (uint32_t) (5 * i + 1); break;
                case 2: f = v[1] ^ v[2] ^ v[3]; g = (uint32_t) (3 * i + 5); break;
                default: f = v[2] ^ (v[1] | ~v[3]); g = (uint32_t) (7 * i);
            }
            uint32_t t = v[3]; v[3] = v[2]; v[2] = v[1];
            v[1] = v[1] + rol(v[0] + f + K[i] + w[g % 16], S[i / 16][i % 4]);
            v[0] = t;
        }
        for (int i = 0; i < 4; ++i) h[i] += v[i];
    }
    Str r;
    for (uint32_t x : h) for (int k = 0; k < 4; ++k) r += (char) (x >> (8 * k));
    return r;
}
static Str sha1(const Str &msg) {
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    Str m = padded(msg, true);
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80], a = h[0], b = h[1], cc = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 16; ++i) { w[i] = 0; for (int k = 0; k < 4; ++k) w[i] = (w[i] << 8) | (unsigned char) m[o + 4 * (size_t) i + (size_t) k]; }
        for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for (int i = 0; i < 80; ++i) {
            uint32_t f = i < 20 ? (b & cc) | (~b & d) : i < 40 || i >= 60 ? b ^ cc ^ d : (b & cc) | (b & d) | (cc & d);
            uint32_t k = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6;
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = cc; cc = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += cc; h[3] += d; h[4] += e;
    }
    Str r;
    for (uint32_t x : h) for (int k = 3; k >= 0; --k) r += (char) (x >> (8 * k));
    return r;
}
static Str hash(bool sha, const Str &m) { return sha ? sha1(m) : md5(m); }
static Str hex(const Str &s) { Str r; char b[3]; for (unsigned char ch : s) { snprintf(b, 3, "%02x", ch); r += b; } return r; }
struct Obj { bool sha; MessageDigest d; Str pending; };

static Str chunk(Rng &r) {
    static const std::vector<int> edge = {1, 2, 3, 8, 31, 54, 55, 56, 57, 62, 63, 64, 65, 66, 111, 112, 119, 120, 121, 127, 128, 129, 191, 192, 193};
    int n = r.chance(50) ? r.pick(edge) : 1 + r.size(r.chance(3) ? 20000 : 300), style = r.upto(4);
    Str s;
    for (int i = 0; i < n; ++i) s += style == 0 ? (char) r.u64() : style == 1 ? (char) 0 : style == 2 ? (char) 0xff : (char) ('a' + r.upto(26));
    return s;
}
static void feed(Ctx &c, MessageDigest &d, const Str &s, int shift) {
    byte *p = (byte *) malloc(s.size() + (size_t) shift);          // exactly as long as the message, every alignment
    memcpy(p + shift, s.data(), s.size());
    d.update(p + shift, (int) s.size());
    c.check(!memcmp(p + shift, s.data(), s.size()), "MessageDigest.update-changes-input", "input modified");
    free(p);
}
static Str take(Ctx &c, MessageDigest &d, int extra) {
    int n = d.getDigestLength();
    byte *p = (byte *) malloc((size_t) n + (size_t) extra);
    memset(p, 0x5a, (size_t) n + (size_t) extra);
    c.eq(d.digest(p, n + extra), n, "MessageDigest.digest-result");
    for (int i = n; i < n + extra; ++i) c.eq((int) p[i], 0x5a, "MessageDigest.digest-writes-past-digest");
    Str r((char *) p, (size_t) n);
    free(p);
    return r;
}
static void refuse(Ctx &c, MessageDigest &d, int w, int x) {
    byte buf[64];
    memset(buf, 0x33, sizeof buf);
    Str e;
    switch (w) {
        case 0: e = thrown([&]() { d.digest(buf, x % d.getDigestLength()); }); break;
        case 1: e = thrown([&]() { d.digest(nullptr, 64); }); break;
        case 2: e = thrown([&]() { d.update(nullptr, x); }); break;
        default: e = thrown([&]() { d.update(buf, 0); });
    }
    c.eq(e, Str("InterruptedException"), "MessageDigest.bad-argument");
    for (byte b : buf) c.eq((int) b, 0x33, "MessageDigest.refused-but-wrote");
}
// histories over several objects of both algorithms
WORKLOAD(histories, 6000, 200000) {
    std::vector<Obj *> os;
    struct Free { std::vector<Obj *> &v; ~Free() { for (Obj *o : v) delete o; } } fr{os};
    int steps = 5 + c.r.upto(25);
    for (int s = 0; s < steps; ++s) {
        if (os.empty() || (os.size() < 3 && c.r.chance(20))) {
            bool sha = c.r.chance(50);
            OP("getInstance", sha);
            os.push_back(new Obj{sha, MessageDigest::getInstance(sha ? "SHA1" : "MD5"), ""});
            c.eq(N(os.back()->d.getAlgorithm()), Str(sha ? "SHA1" : "MD5"), "MessageDigest.getAlgorithm");
            c.eq(os.back()->d.getDigestLength(), sha ? 20 : 16, "MessageDigest.getDigestLength");
        }
        size_t i = (size_t) c.r.upto((int) os.size());
        Obj &o = *os[i];
        switch (c.r.upto(12)) {
            case 0: case 1: case 2: case 3: case 4: {
                Str m = chunk(c.r);
                int shift = c.r.upto(8);
                OP("update", (int) i, (int) m.size(), shift);
                feed(c, o.d, m, shift);
                o.pending += m;
                break;
            }
            case 5: case 6: case 7: {
                int extra = c.r.chance(50) ? 0 : c.r.upto(20);
                OP("digest", (int) i, (int) o.pending.size(), extra);
                c.eq(hex(take(c, o.d, extra)), hex(hash(o.sha, o.pending)), "MessageDigest.digest");
                c.ev(o.pending.empty() ? "empty_digests" : o.pending.size() % 64 >= 56 ? "two_block_paddings" : "digests");
                o.pending.clear();                        // the next message starts from nothing
                break;
            }
            case 8: OP("reset", (int) i); o.d.reset(); if (!o.pending.empty()) c.ev("resets_with_pending_input"); o.pending.clear(); break;
            case 9: { int w = c.r.upto(4), x = c.r.upto(40); OP("refuse", (int) i, w, x); refuse(c, o.d, w, x); c.ev("refusals"); break; }
            case 10: {
                OP("copy", (int) i);
                Obj *n = new Obj(o);
                os.push_back(n);
                c.eq(N(n->d.getAlgorithm()), Str(o.sha ? "SHA1" : "MD5"), "MessageDigest.copy-algorithm");
                c.ev("copies");
                if (os.size() > 4) { delete os[0]; os.erase(os.begin()); }
                break;
            }
            default: {
                size_t j = (size_t) c.r.upto((int) os.size());
                OP("assign", (int) i, (int) j);
                o = *os[j];
                c.eq(o.d.getDigestLength(), o.sha ? 20 : 16, "MessageDigest.assign");
                c.ev("copies");
            }
        }
    }
    for (Obj *o : os) { OP("final digest"); c.eq(hex(take(c, o->d, 0)), hex(hash(o->sha, o->pending)), "MessageDigest.digest"); }
}
// every length 0..260 once, fed in random pieces
WORKLOAD(lengths, 1044, 26100) {
    int n = (int) (c.idx % 261);
    bool sha = c.idx / 261 % 2;
    Str m;
    for (int i = 0; i < n; ++i) m += (char) c.r.u64();
    OP("length", n, sha);
    MessageDigest d = MessageDigest::getInstance(sha ? "SHA1" : "MD5");
    for (size_t at = 0; at < m.size();) { size_t k = std::min(m.size() - at, (size_t) 1 + (size_t) c.r.upto(c.r.chance(50) ? 3 : 130)); feed(c, d, m.substr(at, k), 0); at += k; }
    c.eq(hex(take(c, d, 0)), hex(hash(sha, m)), "MessageDigest.digest");
    c.ev("lengths_swept");
}
// more than 2^32 bits of input, so that the length counter carries
WORKLOAD(huge, PLAIN(4), PLAIN(8)) {
    bool sha = c.idx % 2, once = c.idx / 2 % 2;
    const size_t n = 536870969;
    OP("huge", sha, once);
    byte *z = (byte *) mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    MessageDigest d = MessageDigest::getInstance(sha ? "SHA1" : "MD5");
    if (once) d.update(z, (int) n);
    else for (size_t at = 0; at < n;) { size_t k = std::min(n - at, (size_t) 1 + (size_t) c.r.upto(100000000)); d.update(z + at, (int) k); at += k; }
    c.eq(hex(take(c, d, 0)), Str(sha ? "eeb9530e8faaf91afbe7fdc543f7a9a1679819cb" : "0ccd318f88830d9d2aaa95e416efd8b8"), "MessageDigest.digest-huge");
    munmap(z, n);
    c.ev("length_carries");
}
// messages of kilobytes to many megabytes: every byte of the length field
WORKLOAD(large, PLAIN(24), PLAIN(240)) {
    bool sha = c.idx % 2;
    int bits = 13 + (int) (c.idx / 2 % 13);           // up to 2^26 bytes
    size_t n = ((size_t) 1 << (bits - 1)) + (size_t) (c.r.u64() % ((uint64_t) 1 << bits));
    OP("large", sha, (long) n);
    Str m(n, 0);
    for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t w = mon::mix(i + c.idx); memcpy(&m[i], &w, 8); }
    MessageDigest d = MessageDigest::getInstance(sha ? "SHA1" : "MD5");
    for (size_t at = 0; at < n;) { size_t k = std::min(n - at, (size_t) 1 + (size_t) c.r.upto(c.r.chance(50) ? 70000 : 1 << 26)); d.update((const byte *) m.data() + at, (int) k); at += k; }
    c.eq(hex(take(c, d, 0)), hex(hash(sha, m)), "MessageDigest.digest-large");
    c.ev("large_messages");
}
// separate objects in separate threads
WORKLOAD(threads, 150, 3000) {
    int n = 2 + c.r.upto(4);
    OP("threads", n);
    std::vector<Str> bad((size_t) n);
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (int rep = 0; rep < 6; ++rep) {
            bool sha = r.chance(50);
            MessageDigest d = MessageDigest::getInstance(sha ? "SHA1" : "MD5");
            for (int round = 0; round < 2; ++round) {
                Str m;
                int k = r.upto(5);
                for (int q = 0; q < k; ++q) { Str s = chunk(r); if (s.size() > 400) s.resize(400); d.update((const byte *) s.data(), (int) s.size()); m += s; if (r.chance(30)) sched_yield(); }
                byte out[20];
                int len = d.digest(out, 20);
                if (hex(Str((char *) out, (size_t) len)) != hex(hash(sha, m))) bad[(size_t) i] += "wrong digest of " + esc(m) + "; ";
            }
        }
    }, 0);
    for (const Str &b : bad) c.check(b.empty(), "MessageDigest.concurrent-digest", b);
    c.ev("concurrent_digests", n * 12);
}
WORKLOAD(algorithms, 200, 2000) {
    Str name = c.r.pick(std::vector<Str>{"", "md5", "MD4", "MD55", "MD5 ", "SHA", "SHA1 ", "sha1", "SHA-512", "SHA11", "M", "x"});
    OP("getInstance", name);
    c.eq(thrown([&]() { MessageDigest::getInstance(J(name)); }), Str("NoSuchAlgorithmException"), "MessageDigest.getInstance-unknown");
    c.ev("unknown_algorithms");
}
MON_MAIN
