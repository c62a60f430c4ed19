// K04: the test runner and its assertions, the verification tool the library hands to its users.
#include "lib.hpp"
#include "library/Test.hpp"
#include "library/Java/Util/ArrayList/ArrayList.hpp"
#include "library/Java/Lang/Character/Character.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
using mon::Ctx;
using mon::Rng;
namespace L = Java::Lang;
typedef long long ll;

// ---- the program under test: 24 registered tests whose behaviour each case chooses --------------------------------
enum { TESTS = 24, CALLS = 400 };
struct Step {
    int what; Str a, b; ll x, y; double d, e; int prec;
    bool fails;         // the specification's verdict
    Str shows1, shows2; // texts the failure message must contain
};
struct Plan { Str suite, name; bool skip, fixture; std::vector<Step> steps; int data; };
static Plan plan[TESTS];
struct Shared { int n; struct { int test, phase; long extra; } at[CALLS]; };
static Shared *shared;
static void mark(int test, int phase, long extra = 0) { if (shared->n < CALLS) shared->at[shared->n++] = {test, phase, extra}; }
static void runStep(const Step &s) {
    switch (s.what) {
        case 0: assertEquals((int) s.x, (int) s.y); break;
        case 1: assertEquals((long) s.x, (long) s.y); break;
        case 2: assertEquals(J(s.a), J(s.b)); break;
        case 3: assertEquals(s.a.c_str(), J(s.b)); break;
        case 4: assertEquals((bool) s.x, (bool) s.y); break;
        case 5: assertEquals((int) s.x, J(s.b)); break;
        case 6: assertEquals((char) s.x, (char) s.y); break;
        case 7: assertNotEquals((int) s.x, (int) s.y); break;
        case 8: assertNotEquals((long) s.x, (long) s.y); break;
        case 9: assertNotEquals((bool) s.x, (bool) s.y); break;
        case 10: assertTrue((int) s.x); break;
        case 11: assertFalse((int) s.x); break;
        case 12: assertNull((void *) (intptr_t) s.x); break;
        case 13: assertNotEqualsString(J(s.a), J(s.a + "x"), __FILE__, __LINE__); break;
        case 14: assertEqualsPrecision(s.d, s.e, s.prec); break;
        case 15: assertFail(); break;
        case 16: {
            ArrayList<L::Integer> p, q;
            for (char ch : s.a) p.add(L::Integer(ch));
            for (char ch : s.b) q.add(L::Integer(ch));
            assertArray(p, q);
            break;
        }
        case 17: CTEST_LOG("note %s", s.a.c_str()); break;
        case 18: assertEqualsInt((int) s.x, (int) s.y, __FILE__, __LINE__); break;
        case 19: assertEqualsString(J(s.a), J(s.b), __FILE__, __LINE__); break;
        case 20: assertNotEqualsInt((int) s.x, (int) s.y, __FILE__, __LINE__); break;
        case 21: assertNotEquals(J(s.a), J(s.b)); break;
        case 22: assertNotEqualsPrecision(s.d, s.e, s.prec); break;
        case 23: assertEqualsDouble(s.d, s.e, __FILE__, __LINE__); break;
        case 24: assertNotEqualsDouble(s.d, s.e, __FILE__, __LINE__); break;
    }
}
template<int N> static void body() {
    mark(N, 1);
    const std::vector<Step> &s = plan[N].steps;
    for (size_t i = 0; i < s.size(); ++i) { mark(N, 2, (long) i); runStep(s[i]); }
    mark(N, 3);
}
static void setUp(void *d) { mark(*(int *) d, 0); }
static void tearDown(void *d) { mark(*(int *) d, 4); }
#define T1(n) {"", "", body<n>, 0, nullptr, nullptr, nullptr, __CTEST_MAGIC}
#define T4(n) T1(n), T1(n + 1), T1(n + 2), T1(n + 3)
static struct CTEST slots[TESTS] __attribute__((used, section(".CTEST"))) = {T4(0), T4(4), T4(8), T4(12), T4(16), T4(20)};

// ---- choosing behaviours ------------------------------------------------------------------------------------------
static Str word(Rng &r, int max) { Str s; for (int i = r.size(max); i-- > 0;) s += (char) (33 + r.upto(90)); return s; }
static Str near(Rng &r, const Str &a) {
    Str b = a;
    switch (r.upto(4)) {
        case 0: if (!b.empty()) b[(size_t) r.upto((int) b.size())] ^= 1; break;
        case 1: b += (char) (33 + r.upto(90)); break;
        case 2: if (!b.empty()) b.pop_back(); break;
        case 3: b.insert(b.begin(), (char) (33 + r.upto(90))); break;
    }
    return b;
}
static Str fixed(double d, int prec) { char t[1200]; snprintf(t, sizeof t, "%.*f", prec, d); return t; }
static Step step(Rng &r, bool want) {       // want: an assertion that holds
    Step s{r.upto(25), r.chance(3) ? word(r, 9000) : word(r, 60), "", 0, 0, 0, 0, 0, false, "", ""};
    if (want && s.what == 15) s.what = 17;
    bool equal = want;
    if (s.what == 7 || s.what == 8 || s.what == 9 || s.what == 20 || s.what == 21) equal = !want;
    s.b = equal ? s.a : near(r, s.a);
    s.x = s.what == 0 || s.what == 18 || s.what == 7 || s.what == 20 || s.what == 5 ? (ll) r.i32() : (ll) r.i64();
    if (s.what == 4 || s.what == 9) s.x &= 1;
    if (s.what == 6) s.x = 33 + r.upto(90);
    if (equal) s.y = s.x;
    else if (s.what == 4 || s.what == 9) s.y = !s.x;
    else if (s.what == 6) s.y = s.x == 40 ? 41 : 40;
    else if (s.what == 0 || s.what == 18 || s.what == 7 || s.what == 20) { s.y = r.chance(60) ? (int) (s.x ^ (1u << r.upto(32))) : (int) r.i32(); }
    else s.y = r.chance(60) ? (ll) ((uint64_t) s.x ^ (1ull << r.upto(64))) : r.i64();
    if (s.what == 5) s.b = std::to_string((int) (equal ? s.x : s.y));
    switch (s.what) {
        case 10: s.x = want ? (r.chance(50) ? 1 : (r.i32() | 1)) : 0; break;
        case 11: s.x = want ? 0 : (r.chance(50) ? 1 : (r.i32() | 1)); break;
        case 12: s.x = want ? 0 : (1 + r.upto(1 << 30)); break;
        case 13: if (!want) s.what = 15; break;
        case 14: s.d = (r.unit() - 0.5) * std::pow(10, r.range(-6, 12)); s.prec = r.upto(12); s.e = s.d + (want ? 0 : std::pow(10, r.range(-14, 3))); break;
        case 22: case 23: case 24:
            s.d = (r.unit() - 0.5) * std::pow(10, r.range(-6, 12)); s.prec = s.what == 22 ? r.upto(12) : 15;
            s.e = s.d + ((s.what == 23) == want ? 0 : r.chance(50) ? std::pow(10, r.range(-14, 3)) : -2 * s.d);
            break;
        default: break;
    }
    switch (s.what) {       // the verdict, from the values themselves
        case 0: case 18: s.fails = (int) s.x != (int) s.y; break;
        case 1: s.fails = s.x != s.y; break;
        case 4: case 6: s.fails = s.x != s.y; break;
        case 2: case 3: case 16: case 19: s.fails = s.a != s.b; break;
        case 5: s.fails = std::to_string((int) s.x) != s.b; break;
        case 7: case 20: s.fails = (int) s.x == (int) s.y; break;
        case 8: case 9: s.fails = s.x == s.y; break;
        case 21: s.fails = s.a == s.b; break;
        case 10: s.fails = s.x == 0; break;
        case 11: s.fails = s.x != 0; break;
        case 12: s.fails = s.x != 0; break;
        case 13: s.fails = false; break;
        case 14: s.fails = fixed(s.d, s.prec) != fixed(s.e, s.prec); s.shows1 = fixed(s.d, s.prec); s.shows2 = fixed(s.e, s.prec); break;
        case 22: case 24: s.fails = fixed(s.d, s.prec) == fixed(s.e, s.prec); break;
        case 23: s.fails = fixed(s.d, s.prec) != fixed(s.e, s.prec); s.shows1 = fixed(s.d, s.prec); s.shows2 = fixed(s.e, s.prec); break;
        case 15: s.fails = true; break;
        default: s.fails = false;
    }
    if (s.what == 0 || s.what == 18) { s.shows1 = std::to_string((int) s.x); s.shows2 = std::to_string((int) s.y); }
    if (s.what == 1) { s.shows1 = std::to_string(s.x); s.shows2 = std::to_string(s.y); }
    if (s.what == 2 || s.what == 3 || s.what == 19) { s.shows1 = "'" + s.a + "'"; s.shows2 = "'" + s.b + "'"; }
    if (s.what == 5) { s.shows1 = std::to_string((int) s.x); s.shows2 = "'" + s.b + "'"; }
    return s;
}
static Str ident(Rng &r) { static const char *const n[] = {"Java", "JavaLang", "JavaLangString", "JavaUtil", "A", "AB", "Ab", "B", "Constructor", "Const", "Copy"}; return n[r.upto(11)]; }
struct Run { int rc; bool signalled; Str out; };
static Run run(const std::vector<Str> &args) {
    int p[2];
    Run res{0, false, ""};
    if (pipe(p)) return res;
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        dup2(p[1], 1); close(p[0]); close(p[1]);
        std::vector<const char *> v;
        for (auto &a : args) v.push_back(a.c_str());
        int n = (int) v.size();
        v.push_back(nullptr);
        int failed = ApplicationTest(n, v.data());
        fflush(stdout);
        _exit(failed);
    }
    close(p[1]);
    char buf[8192];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) res.out.append(buf, (size_t) n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    res.signalled = WIFSIGNALED(st);
    res.rc = res.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
    return res;
}
static bool startsWith(const Str &s, const Str &p) { return s.compare(0, p.size(), p) == 0; }
static void prepare() {
    if (!shared) shared = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared->n = 0;
    for (int i = 0; i < TESTS; ++i) {
        Plan &p = plan[i];
        p.data = i;
        slots[i].ssname = p.suite.c_str();
        slots[i].ttname = p.name.c_str();
        slots[i].skip = p.skip;
        slots[i].data = p.fixture ? &p.data : nullptr;
        slots[i].setup = p.fixture ? setUp : nullptr;
        slots[i].teardown = p.fixture ? tearDown : nullptr;
    }
}
WORKLOAD(runner, 12000, 200000) {
    for (auto &p : plan) p.steps.clear();
    int badShare = c.r.chance(20) ? 0 : c.r.chance(10) ? 100 : c.r.upto(40);
    for (int i = 0; i < TESTS; ++i) {
        Plan &p = plan[i];
        p = Plan{ident(c.r), ident(c.r), c.r.chance(10), c.r.chance(30), {}, i};
        int n = c.r.upto(6);
        bool bad = c.r.chance(badShare);
        for (int k = 0; k < n; ++k) p.steps.push_back(step(c.r, true));
        if (bad) p.steps.insert(p.steps.begin() + c.r.upto((int) p.steps.size() + 1), step(c.r, false));
    }
    for (auto &p : plan) { OP("test", p.suite, p.name, p.skip, p.fixture); for (auto &s : p.steps) OP("assertion", s.what, s.fails, (long) s.x, s.a.substr(0, 20)); }
    prepare();
    std::vector<Str> args{"program"};
    int kind = c.r.upto(3);
    if (kind >= 1) args.push_back(c.r.chance(10) ? "" : ident(c.r));
    if (kind >= 2) args.push_back(c.r.chance(10) ? "" : ident(c.r));
    if (kind == 2 && c.r.chance(20)) args.push_back("ignored");
    Str title;
    for (auto &a : args) title += (title.empty() ? "" : ",") + a;
    c.op("run(" + title + ")");
    Run got = run(args);
    c.check(!got.signalled && got.rc < 90, "Runner.died", "ended with " + show(got.rc) + ": " + esc(got.out.substr(got.out.size() > 200 ? got.out.size() - 200 : 0)));
    // what should have happened
    int total = 0, ok = 0, failed = 0, skipped = 0, index = 0;
    size_t at = 0;
    auto selected = [&](const Plan &p) { return (kind < 1 || startsWith(p.suite, args[1])) && (kind < 2 || startsWith(p.name, args[2])); };
    for (auto &p : plan) total += selected(p);
    auto expectMark = [&](int test, int phase, long extra) {
        c.check((int) at < shared->n, "Runner.missing-call", "test #" + show(test) + " phase " + show(phase) + " never ran");
        c.check(shared->at[at].test == test && shared->at[at].phase == phase && shared->at[at].extra == extra, "Runner.call-order",
                "call " + show((int) at) + " was phase " + show(shared->at[at].phase) + " of test " + show(shared->at[at].test) + ", want phase " + show(phase) + " of test " + show(test));
        ++at;
    };
    size_t pos = 0;
    for (int i = 0; i < TESTS; ++i) {
        const Plan &p = plan[i];
        if (!selected(p)) { c.ev("filtered_out"); continue; }
        ++index;
        Str head = "TEST " + std::to_string(index) + "/" + std::to_string(total) + " " + p.suite + ":" + p.name + " ";
        c.check(got.out.compare(pos, head.size(), head) == 0, "Runner.heading", "expected " + esc(head) + " at " + esc(got.out.substr(pos, 80)));
        pos += head.size();
        Str verdict = "[OK]\n";
        const Step *culprit = nullptr;
        if (p.skip) { verdict = "[SKIPPED]\n"; ++skipped; c.ev("skipped"); }
        else {
            if (p.fixture) { expectMark(i, 0, 0); c.ev("fixtures"); }
            expectMark(i, 1, 0);
            for (size_t k = 0; k < p.steps.size() && !culprit; ++k) {
                expectMark(i, 2, (long) k);
                if (p.steps[k].fails) { culprit = &p.steps[k]; c.ev("failing_assertions"); } else c.ev("holding_assertions");
            }
            if (culprit) { verdict = "[FAIL]\n"; ++failed; }
            else { ++ok; expectMark(i, 3, 0); if (p.fixture) expectMark(i, 4, 0); }
        }
        if (culprit && (int) at < shared->n && shared->at[at].test == i && shared->at[at].phase == 4) ++at;    // whether a failed test is torn down is left open
        size_t next = got.out.find(i + 1 < TESTS ? "TEST " + std::to_string(index + 1) + "/" : "RESULTS: ", pos);
        if (next == Str::npos) next = got.out.find("RESULTS: ", pos);
        c.check(next != Str::npos, "Runner.report-cut", "nothing after " + esc(head));
        Str part = got.out.substr(pos, next - pos);
        c.check(startsWith(part, verdict), "Runner.verdict", "test " + esc(head) + (culprit ? "assertion kind " + show(culprit->what) : Str("")) + " reported " + esc(part.substr(0, 60)) + ", want " + esc(verdict));
        if (culprit) {
            c.check(part.size() > 3900 || part.find("ERROR") != Str::npos, "Runner.failure-not-explained", esc(part));
            if (culprit->a.size() + culprit->b.size() > 500 || part.size() > 3900) c.ev("long_messages");
            else c.check(part.find(culprit->shows1) != Str::npos && part.find(culprit->shows2) != Str::npos, "Runner.failure-values", esc(part) + " should show " + esc(culprit->shows1) + " and " + esc(culprit->shows2));
        } else if (!p.skip) c.check(part.find("ERROR") == Str::npos, "Runner.explains-success", esc(part));
        if (!p.skip) for (auto &s : p.steps) {
            if (s.what == 17) { c.check(part.size() > 3900 || part.find("LOG: note " + s.a) != Str::npos, "Runner.log", esc(part)); c.ev("log_lines"); }
            if (&s == culprit) break;
        }
        pos = next;
    }
    c.eq((int) at, shared->n, "Runner.extra-calls");
    Str sum = "RESULTS: " + std::to_string(total) + " tests (" + std::to_string(ok) + " ok, " + std::to_string(failed) + " failed, " + std::to_string(skipped) + " skipped) ran in ";
    c.check(got.out.compare(pos, sum.size(), sum) == 0, "Runner.summary", esc(got.out.substr(pos, 120)) + " want " + esc(sum));
    c.eq(got.rc, failed, "Runner.result");
    c.ev(failed ? "failing_runs" : "passing_runs");
    c.ev("tests_run", (uint64_t) (ok + failed));
}
static Run one(const Step &s) {
    for (int i = 0; i < TESTS; ++i) plan[i] = Plan{i ? "Other" : "Probe", "probe", false, false, {}, i};
    plan[0].steps.push_back(s);
    prepare();
    return run({"program", "Probe"});
}
// a failure message longer than the 4 KiB buffer
PROBE(long_failure_message) {
    Step s{19, Str(9000, 'a'), Str(9000, 'b'), 0, 0, 0, 0, 0, true, "", ""};
    Run r = one(s);
    return !r.signalled && r.rc == 1 && r.out.find("[FAIL]") != Str::npos && r.out.find("RESULTS: 1 tests (0 ok, 1 failed, 0 skipped)") != Str::npos;
}
MON_MAIN
