// LINK: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock
// S05: StringBuffer shared by several threads.
#define CONC_WRAP
#include "lib.hpp"
#include "../mon/conc.hpp"
using mon::Ctx;
using mon::Rng;
typedef StringBuffer SB;

static Str token(int t, int i) { char b[16]; snprintf(b, sizeof b, "<%d:%04d>", t, i); return b; }     // 8 bytes
static const int W = 8;

// splits a text into whole tokens; false if any byte is torn
static bool parse(const Str &s, std::vector<std::pair<int, int>> &out) {
    if (s.size() % W) return false;
    for (size_t i = 0; i < s.size(); i += W) {
        int t, k;
        if (sscanf(s.substr(i, W).c_str(), "<%1d:%4d>", &t, &k) != 2 || token(t, k) != s.substr(i, W)) return false;
        out.push_back({t, k});
    }
    return true;
}
static Str plain(const String &s) { return Str(s.toSTLString()); }

// Append-only: every snapshot taken by a reader is a prefix of the final text.
WORKLOAD(append, 150, 2000) {
    int writers = 2 + c.r.upto(3), readers = 1 + c.r.upto(2), each = 10 + c.r.upto(25);
    int mode = c.r.upto(3);
    OP("append_stress", writers, readers, each, mode);
    SB b(1 + c.r.upto(30));
    std::vector<std::vector<Str>> snaps((size_t) readers);
    std::vector<std::vector<std::pair<int, int>>> lens((size_t) readers);
    mon::parallel(c, writers + readers, [&](int i, Rng &r) {
        if (i < writers) {
            for (int k = 0; k < each; ++k) {
                Str t = token(i, k);
                String j = J(t);
                switch (mode == 0 ? 0 : r.upto(6)) {
                    case 0: b.append(j); break;
                    case 1: b.append((string) t.c_str()); break;
                    case 2: b.append((const CharSequence &) j); break;
                    case 3: { SB x(j); b.append(x); break; }
                    case 4: { Str padded = "zz" + t + "yy"; b.append((string) padded.c_str(), 2, W); break; }
                    default: { String p = J("q" + t + "r"); b.append((const CharSequence &) p, 1, 1 + W); break; }
                }
            }
        } else {
            auto &sn = snaps[(size_t) (i - writers)];
            for (int k = 0; k < each; ++k) {
                switch (mode == 0 ? 0 : r.upto(7)) {
                    case 0: sn.push_back(plain(b.toString())); break;
                    case 1: sn.push_back(plain(b.getValue())); break;
                    case 2: { SB copy(b); sn.push_back(plain(copy.toString())); break; }
                    case 3: { int l0 = b.length(); Str s = plain(b.subString(0)); int l1 = b.length(); sn.push_back(s); lens[(size_t) (i - writers)].push_back({l0, l1});
                        if ((int) s.size() < l0 || (int) s.size() > l1) throw mon::Violation{"length-disagrees", show(l0) + " " + show(l1) + " " + show((int) s.size())}; break; }
                    case 4: { int cap = b.capacity(); int len = b.length(); (void) cap; if (len > 0) { char ch = b.charAt(len - 1); if (ch != '>') throw mon::Violation{"charAt-torn", show(ch)}; } break; }
                    case 5: b.ensureCapacity(r.upto(2000)); break;
                    default: b.trimToSize(); break;
                }
            }
        }
    });
    Str fin = plain(b.toString());
    std::vector<std::pair<int, int>> toks;
    c.check(parse(fin, toks), "append.torn", esc(fin, 400));
    std::vector<int> next((size_t) writers, 0);
    for (auto &t : toks) { c.check(t.first < writers && t.second == next[(size_t) t.first], "append.order", "thread " + show(t.first) + " piece " + show(t.second)); next[(size_t) t.first]++; }
    for (int w = 0; w < writers; ++w) c.eq(next[(size_t) w], each, "append.lost");
    int switches = 0;
    for (size_t i = 1; i < toks.size(); ++i) if (toks[i].first != toks[i - 1].first) ++switches;
    c.ev("writer_switches", (uint64_t) switches);
    for (auto &sn : snaps) {
        size_t last = 0;
        for (auto &s : sn) {
            c.check(s.size() % W == 0 && fin.compare(0, s.size(), s) == 0, "snapshot-not-prefix", esc(s));
            c.check(s.size() >= last, "snapshot-went-back", show((int) s.size()));
            last = s.size();
            c.ev("snapshots");
        }
    }
    c.sigx = mon::mix(c.sigx ^ mon::hstr(fin));
}

// Producers append or prepend whole tokens, consumers delete whole tokens.
WORKLOAD(conserve, 100, 1500) {
    int n = 2 + c.r.upto(4), each = 10 + c.r.upto(20);
    OP("conserve_stress", n, each);
    SB b;
    std::atomic<long> added{0}, removed{0};
    mon::parallel(c, n, [&](int i, Rng &r) {
        int k = 0;
        for (int s = 0; s < each; ++s) {
            switch (r.upto(6)) {
                case 0: case 1: b.append(J(token(i, k++))); added.fetch_add(1, std::memory_order_relaxed); break;
                case 2: b.insert(0, J(token(i, k++))); added.fetch_add(1, std::memory_order_relaxed); break;
                case 3: { String j = J(token(i, k++)); b.insert(0, (const CharSequence &) j); added.fetch_add(1, std::memory_order_relaxed); break; }
                case 4: { try { b.replace(0, W, J(token(i, k++))); added.fetch_add(1, std::memory_order_relaxed); removed.fetch_add(1, std::memory_order_relaxed); } catch (...) {} break; }
                default: b.deletes(0, W); removed.fetch_add(1, std::memory_order_relaxed);
            }
        }
    });
    Str fin = plain(b.toString());
    std::vector<std::pair<int, int>> toks;
    c.check(parse(fin, toks), "conserve.torn", esc(fin, 400));
    std::set<std::pair<int, int>> uniq(toks.begin(), toks.end());
    c.check(uniq.size() == toks.size(), "conserve.duplicate", esc(fin, 400));
    c.check((long) toks.size() >= added - removed && (long) toks.size() <= added, "conserve.count", show((int) toks.size()));
    c.eq(b.length(), (int) fin.size(), "conserve.length");
    c.sigx = mon::mix(c.sigx ^ mon::hstr(fin));
}

// Two buffers fed into and assigned to each other: no deadlock, no race.
WORKLOAD(crossed, 100, 1500) {
    int n = 2 + c.r.upto(3), each = 6;
    OP("crossed_stress", n);
    SB a, b;
    a.append(J(token(0, 0)));
    b.append(J(token(1, 1)));
    mon::parallel(c, n, [&](int i, Rng &r) {
        for (int s = 0; s < each; ++s) {
            SB &x = (i + (r.chance(20) ? 1 : 0)) % 2 ? a : b;
            SB &y = &x == &a ? b : a;
            switch (r.upto(7)) {
                case 0: x.append(y); break;
                case 1: x.append((const CharSequence &) y); break;
                case 2: x = y; break;
                case 3: { SB z(y); x.append(z); break; }
                case 4: x.append(x); break;
                case 5: x.insert(0, (const CharSequence &) y); break;
                default: if (x.length() > 4000) x.setLength(W); else x.append((const CharSequence &) y, 0, W);
            }
        }
    });
    std::vector<std::pair<int, int>> t;
    c.check(parse(plain(a.toString()), t) && parse(plain(b.toString()), t), "crossed.torn", esc(plain(a.toString()), 400));
    c.eq(a.length(), (int) plain(a.toString()).size(), "crossed.length");
    c.ev("crossed_bytes", (uint64_t) (a.length() + b.length()));
    c.sigx = mon::mix(c.sigx ^ mon::hstr(plain(a.toString())));
}

// Short mixed histories decided by linearizability against a plain string.  Every public operation is in the table; the
// cases go through all pairs of operations, so each meets each other one on a shared buffer.
struct Op : mon::Timed { int kind, x, y, owner; Str arg, res; };
struct Method {
    const char *name;
    void (*run)(SB &b, Op &o);                                      // stores what it saw in o.res
    bool (*model)(Str &s, const Op &o, Str &r);                     // false: has to throw
};
static int len(const Str &s) { return (int) s.size(); }
static Str num(long v) { return std::to_string(v); }
static float half(const Op &o) { return (float) o.x * 16 + 0.5f; }
static bool put(Str &s, int at, const Str &t) { if (at > len(s)) return false; s.insert((size_t) at, t); return true; }
#define RUN [](SB &b, Op &o)
#define MODEL [](Str &s, const Op &o, Str &r) -> bool
#define APPENDS(TEXT) [](Str &s, const Op &o, Str &) -> bool { s += TEXT; return true; }
#define INSERTS(TEXT) [](Str &s, const Op &o, Str &) -> bool { return put(s, o.x, TEXT); }
static const std::vector<Method> &methods() {
    static const std::vector<Method> v = {
        {"append(String)", RUN { b.append(J(o.arg)); }, APPENDS(o.arg)},
        {"append(char*)", RUN { b.append((string) o.arg.c_str()); }, APPENDS(o.arg)},
        {"append(char*,offset,len)", RUN { Str t = "zz" + o.arg + "y"; b.append((string) t.c_str(), 2, len(o.arg)); }, APPENDS(o.arg)},
        {"append(CharSequence)", RUN { String j = J(o.arg); b.append((const CharSequence &) j); }, APPENDS(o.arg)},
        {"append(CharSequence,start,end)", RUN { String j = J("q" + o.arg + "r"); b.append((const CharSequence &) j, 1, 1 + len(o.arg)); }, APPENDS(o.arg)},
        {"append(StringBuffer)", RUN { SB x(J(o.arg)); b.append(x); }, APPENDS(o.arg)},
        {"append(bool)", RUN { b.append((boolean) (o.x & 1)); }, APPENDS((o.x & 1 ? "true" : "false"))},
        {"append(char)", RUN { b.append(o.arg[0]); }, APPENDS(o.arg[0])},
        {"append(int)", RUN { b.append((int) o.x); }, APPENDS(num(o.x))},
        {"append(long)", RUN { b.append((long) o.x); }, APPENDS(num(o.x))},
        {"append(float)", RUN { b.append(half(o)); }, APPENDS(N(String::valueOf(half(o))))},
        {"append(double)", RUN { b.append((double) half(o)); }, APPENDS(N(String::valueOf((double) half(o))))},
        {"appendCodePoint", RUN { b.appendCodePoint(o.arg[0]); }, APPENDS(o.arg[0])},
        {"insert(String)", RUN { b.insert(o.x, J(o.arg)); }, INSERTS(o.arg)},
        {"insert(String,offset,len)", RUN { b.insert(o.x, J("z" + o.arg + "yy"), 1, len(o.arg)); }, INSERTS(o.arg)},
        {"insert(CharSequence)", RUN { String j = J(o.arg); b.insert(o.x, (const CharSequence &) j); }, INSERTS(o.arg)},
        {"insert(CharSequence,start,end)", RUN { String j = J("q" + o.arg + "r"); b.insert(o.x, (const CharSequence &) j, 1, 1 + len(o.arg)); }, INSERTS(o.arg)},
        {"insert(bool)", RUN { b.insert(o.x, (boolean) (o.y & 1)); }, INSERTS((o.y & 1 ? "true" : "false"))},
        {"insert(char)", RUN { b.insert(o.x, o.arg[0]); }, INSERTS(Str(1, o.arg[0]))},
        {"insert(int)", RUN { b.insert(o.x, (int) o.y); }, INSERTS(num(o.y))},
        {"insert(long)", RUN { b.insert(o.x, (long) o.y); }, INSERTS(num(o.y))},
        {"insert(float)", RUN { b.insert(o.x, half(o)); }, INSERTS(N(String::valueOf(half(o))))},
        {"insert(double)", RUN { b.insert(o.x, (double) half(o)); }, INSERTS(N(String::valueOf((double) half(o))))},
        {"deletes", RUN { b.deletes(o.x, o.y); }, MODEL { (void) r; if (o.x > len(s)) return false; s.erase((size_t) o.x, (size_t) (std::min(o.y, len(s)) - o.x)); return true; }},
        {"deleteCharAt", RUN { b.deleteCharAt(o.x); }, MODEL { (void) r; if (o.x >= len(s)) return false; s.erase((size_t) o.x, 1); return true; }},
        {"replace", RUN { b.replace(o.x, o.y, J(o.arg)); }, MODEL { (void) r; if (o.x > len(s)) return false; s = s.substr(0, (size_t) o.x) + o.arg + s.substr((size_t) std::min(o.y, len(s))); return true; }},
        {"reverse", RUN { (void) o; b.reverse(); }, MODEL { (void) r; (void) o; std::reverse(s.begin(), s.end()); return true; }},
        {"setCharAt", RUN { b.setCharAt(o.x, o.arg[0]); }, MODEL { (void) r; if (o.x >= len(s)) return false; s[(size_t) o.x] = o.arg[0]; return true; }},
        {"setLength(0)", RUN { (void) o; b.setLength(0); }, MODEL { (void) r; (void) o; s.clear(); return true; }},
        {"assign", RUN { SB x(J(o.arg)); b = x; }, MODEL { (void) r; s = o.arg; return true; }},
        {"ensureCapacity", RUN { b.ensureCapacity(o.x * 40); }, MODEL { (void) s; (void) o; (void) r; return true; }},
        {"trimToSize", RUN { (void) o; b.trimToSize(); }, MODEL { (void) s; (void) o; (void) r; return true; }},
        {"capacity", RUN { o.res = num(b.capacity()); }, MODEL { r = atoi(o.res.c_str()) >= len(s) ? o.res : ">=" + num(len(s)); return true; }},
        {"toString", RUN { o.res = plain(b.toString()); }, MODEL { (void) o; r = s; return true; }},
        {"getValue", RUN { o.res = plain(b.getValue()); }, MODEL { (void) o; r = s; return true; }},
        {"copy", RUN { SB x(b); o.res = plain(x.toString()); }, MODEL { (void) o; r = s; return true; }},
        {"assign-from", RUN { SB x; x = b; o.res = plain(x.toString()); }, MODEL { (void) o; r = s; return true; }},
        {"length", RUN { o.res = num(b.length()); }, MODEL { (void) o; r = num(len(s)); return true; }},
        {"charAt", RUN { o.res = Str(1, b.charAt(o.x)); }, MODEL { if (o.x >= len(s)) return false; r = Str(1, s[(size_t) o.x]); return true; }},
        {"codePointAt", RUN { o.res = Str(1, (char) b.codePointAt(o.x)); }, MODEL { if (o.x >= len(s)) return false; r = Str(1, s[(size_t) o.x]); return true; }},
        {"codePointBefore", RUN { o.res = Str(1, (char) b.codePointBefore(o.x)); }, MODEL { if (o.x < 1 || o.x > len(s)) return false; r = Str(1, s[(size_t) o.x - 1]); return true; }},
        {"codePointCount", RUN { o.res = num(b.codePointCount(o.x, o.y)); }, MODEL { if (o.x > o.y || o.y > len(s)) return false; r = num(o.y - o.x); return true; }},
        {"offsetByCodePoints", RUN { b.offsetByCodePoints(o.x, 0); }, MODEL { (void) r; return o.x <= len(s); }},
        {"indexOf", RUN { o.res = num(b.indexOf(J(o.arg))); }, MODEL { r = num((long) s.find(o.arg)); return true; }},
        {"indexOf(from)", RUN { o.res = num(b.indexOf(J(o.arg), o.x)); }, MODEL { r = num((long) s.find(o.arg, (size_t) o.x)); return true; }},
        {"lastIndexOf", RUN { o.res = num(b.lastIndexOf(J(o.arg))); }, MODEL { r = num((long) s.rfind(o.arg)); return true; }},
        {"lastIndexOf(from)", RUN { o.res = num(b.lastIndexOf(J(o.arg), o.x)); }, MODEL { r = num((long) s.rfind(o.arg, (size_t) o.x)); return true; }},
        {"subString(start)", RUN { o.res = plain(b.subString(o.x)); }, MODEL { if (o.x > len(s)) return false; r = s.substr((size_t) o.x); return true; }},
        {"subString(start,end)", RUN { o.res = plain(b.subString(o.x, o.y)); }, MODEL { if (o.x > o.y || o.y > len(s)) return false; r = s.substr((size_t) o.x, (size_t) (o.y - o.x)); return true; }},
    };
    return v;
}
static bool applyOp(Str &s, const Op &o) {
    Str r;
    if (!methods()[(size_t) o.kind].model(s, o, r)) r = "!";
    return r == o.res;
}
static void run(SB &b, Op &o) {
    o.call = mon::now();
    try { methods()[(size_t) o.kind].run(b, o); }
    catch (mon::Violation &) { throw; }
    catch (...) { o.res = "!"; }
    o.ret = mon::now();
}
WORKLOAD(mixed, 4802, 60000) {
    const int M = (int) methods().size();
    int n = 2 + c.r.upto(2), each = 2 + c.r.upto(3);
    int pair[2] = {(int) (c.idx % (uint64_t) M), (int) (c.idx / (uint64_t) M % (uint64_t) M)};
    std::vector<std::vector<Op>> plan((size_t) n);
    Str init = c.r.bytes(c.r.upto(8), "ab");
    c.op("mixed(" + show(n) + ")");
    c.log("init " + init);
    for (int t = 0; t < n; ++t) for (int k = 0; k < each; ++k) {
        Op o;
        o.kind = t < 2 && (k == 0 || c.r.chance(50)) ? pair[t] : c.r.upto(M);
        o.owner = t;
        o.x = c.r.upto(8); o.y = o.x + c.r.upto(5);
        o.arg = c.r.bytes(1 + c.r.upto(c.r.chance(10) ? 40 : 3), "ABC");
        c.op("t" + show(t) + "." + methods()[(size_t) o.kind].name + args(o.x, o.y, o.arg));
        plan[(size_t) t].push_back(o);
    }
    SB b(J(init));
    mon::parallel(c, n, [&](int i, Rng &) { for (auto &o : plan[(size_t) i]) run(b, o); }, 40);
    std::vector<Op> h;
    for (auto &p : plan) for (auto &o : p) h.push_back(o);
    Op last; last.owner = 99; last.x = last.y = 0;
    for (last.kind = 0; Str(methods()[(size_t) last.kind].name) != "toString"; ++last.kind) {}
    run(b, last);
    h.push_back(last);
    uint64_t ex = 0;
    bool ok = mon::linearizable<Str, Op>(h, init, applyOp, [](const Str &s) { return s; }, &ex);
    c.ev("histories_checked");
    c.ev("overlapping_pairs", mon::overlaps(h));
    c.ev("search_states", ex);
    if (!ok) {
        Str d = "init " + esc(init) + "\n";
        for (auto &o : h) d += "t" + show(o.owner) + " [" + std::to_string(o.call) + "," + std::to_string(o.ret) + "] " + methods()[(size_t) o.kind].name + args(o.x, o.y, o.arg) + " -> " + esc(o.res) + "\n";
        c.fail("not-linearizable", d);
    }
    ++mon::G().compares;
    Str order;
    std::sort(h.begin(), h.end(), [](const Op &a, const Op &b2) { return a.call < b2.call; });
    for (auto &o : h) order += std::to_string(o.owner) + (o.res == "!" ? "!" : "");
    c.sigx = mon::mix(c.sigx ^ mon::hstr(order));
}

int main(int argc, char **argv) { return mon::runMain(argc, argv); }
