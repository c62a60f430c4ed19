// K01: the program entry point, System.out, System.exit, System.getenv and the clock.
#include "lib.hpp"
#include "library/Java/Lang/System/System.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
#include "library/Java/Io/IOException/IOException.hpp"
#include "library/Java/Lang/Error/Error.hpp"
#include <sys/wait.h>
#include <csignal>
using mon::Ctx;
using mon::Rng;
namespace L = Java::Lang;
static Str bytes(Rng &r, int max) {
    int n = r.size(max), style = r.upto(3);
    Str s;
    for (int i = 0; i < n; ++i) s += style == 0 ? (char) (1 + r.upto(255)) : style == 1 ? (char) (32 + r.upto(95)) : "a=- /\"'\\\n"[r.upto(9)];
    return s;
}
// what the program under the entry point does; plain statics because the entry point takes a function pointer
struct Step { int what; Str text; long num; };
static std::vector<Step> plan;
static std::vector<Str> got;
static int runs;
struct Mine { int x; };
static void act(const Step &s) {
    switch (s.what) {
        case 0: L::System::out::print(J(s.text)); break;
        case 1: L::System::out::println(J(s.text)); break;
        case 2: L::System::out::print((int) s.num); break;
        case 3: L::System::out::println(s.num); break;
        case 4: L::System::out::print(s.text.c_str()); break;
        case 5: L::System::out::println((char) s.num); break;
        case 6: L::System::out::println((double) s.num / 8); break;
        case 10: throw L::Exception(J(s.text));
        case 11: throw L::RuntimeException(J(s.text));
        case 12: throw L::ArithmeticException(J(s.text));
        case 13: throw L::InterruptedException(J(s.text));
        case 14: throw Java::IO::IOException(J(s.text));
        case 15: throw L::UnsupportedOperationException(J(s.text));
        case 20: throw L::Error(J(s.text));
        case 21: throw std::runtime_error(s.text);
        case 22: throw (int) s.num;
        case 23: throw Mine{1};
        case 24: throw "text";
        case 25: throw L::Throwable(J(s.text));
        case 30: L::System::exit((int) s.num);
        case 31: _exit((int) s.num);
        case 32: raise(SIGKILL);
        case 33: L::System::gc();
    }
}
static Str printed(const Step &s) {
    std::ostringstream o;
    switch (s.what) {
        case 0: case 4: return s.what == 4 ? Str(s.text.c_str()) : s.text;
        case 1: return s.text + "\n";
        case 2: return std::to_string((int) s.num);
        case 3: return std::to_string(s.num) + "\n";
        case 5: return Str(1, (char) s.num) + "\n";
        case 6: o << (double) s.num / 8 << "\n"; return o.str();
        case 10: case 11: case 12: case 13: case 14: case 15: return "Application Exception: " + s.text + "\n";
        case 20: case 21: case 22: case 23: case 24: case 25: return "Unhandled Exception\n";
    }
    return "";
}
static void program(Array<L::String> args) {
    ++runs;
    for (int i = 0; i < args.length; ++i) got.push_back(N(args.get(i)));
    if (args.length) args[0] = J("changed");             // the program's own copy
    args.push(J("more"));
    for (const Step &s : plan) act(s);
}
// an argument vector whose memory ends right behind its last entry
struct Argv {
    std::vector<Str> want; char **v;
    Argv(const std::vector<Str> &a, bool terminated) : want(a) {
        v = (char **) malloc(sizeof(char *) * (a.size() + terminated));
        for (size_t i = 0; i < a.size(); ++i) { v[i] = (char *) malloc(a[i].size() + 1); memcpy(v[i], a[i].c_str(), a[i].size() + 1); }
        if (terminated) v[a.size()] = nullptr;
    }
    ~Argv() { for (size_t i = 0; i < want.size(); ++i) free(v[i]); free(v); }
    bool same() const { for (size_t i = 0; i < want.size(); ++i) if (want[i] != v[i]) return false; return true; }
};
static std::vector<Str> argList(Rng &r) {
    std::vector<Str> a(r.chance(10) ? 0 : 1 + (size_t) r.size(r.chance(5) ? 200 : 12));
    for (Str &s : a) s = r.chance(15) ? "" : bytes(r, r.chance(3) ? 3000 : 40);
    return a;
}
static void makePlan(Ctx &c, bool child, Str &out, int &rc, bool &bySignal) {
    plan.clear();
    out = "";
    rc = 0; bySignal = false;
    int n = c.r.upto(6);
    for (int i = 0; i < n; ++i) { Step s{c.r.chance(10) ? 33 : c.r.upto(7), bytes(c.r, 60), 0}; s.num = s.what == 5 ? c.r.upto(256) : s.what == 2 ? (long) c.r.i32() : (long) c.r.range(-1000000, 1000000); if (s.what == 0 && c.r.chance(20)) s.text.insert((size_t) c.r.upto((int) s.text.size() + 1), 1, '\0'); plan.push_back(s); out += printed(s); }
    if (c.r.chance(60)) {
        static const std::vector<int> in = {10, 11, 12, 13, 14, 15, 20, 21, 22, 23, 24, 25}, ch = {30, 30, 31, 32};
        Step s{child && c.r.chance(70) ? c.r.pick(ch) : c.r.pick(in), bytes(c.r, 60), c.r.upto(600)};
        if (s.what >= 30 && c.r.chance(20)) s.num = -c.r.upto(300);
        plan.push_back(s);
        out += printed(s);
        rc = s.what < 30 ? 1 : s.what < 32 ? (int) (s.num & 255) : SIGKILL;
        bySignal = s.what == 32;
        c.ev(s.what < 20 ? "library_exceptions" : s.what < 30 ? "foreign_exceptions" : s.what == 30 ? "explicit_exits" : "sudden_deaths");
        plan.push_back(Step{0, "not reached", 0});
    } else c.ev("normal_returns");
    for (const Step &s : plan) OP("step", s.what, s.text, s.num);
}
WORKLOAD(inprocess, 12000, 400000) {
    Str out; int rc; bool sig;
    std::vector<Str> a = argList(c.r);
    bool term = c.r.chance(50);
    OP("Application", (int) a.size(), term);
    for (const Str &s : a) OP("arg", s);
    makePlan(c, false, out, rc, sig);
    Argv v(a, term);
    got.clear(); runs = 0;
    std::ostringstream cap;
    std::streambuf *old = std::cout.rdbuf(cap.rdbuf());
    struct Back { std::streambuf *b; ~Back() { std::cout.rdbuf(b); } } back{old};
    int res = Application(program, (int) a.size(), v.v);
    std::cout.rdbuf(old);
    c.eq(runs, 1, "Application.runs-program-once");
    c.check(got == a, "Application.arguments", "got " + show((int) got.size()) + " arguments, want " + show((int) a.size()) + (got.size() == a.size() ? " (content differs)" : ""));
    c.check(v.same(), "Application.argv-changed", "argv modified");
    c.eq(res, rc, "Application.result");
    c.eq(esc(cap.str()), esc(out), "Application.output");
    if (a.empty()) c.ev("no_arguments");
    c.ev("arguments", (long) a.size());
}
// a real process: its standard output and exit status
WORKLOAD(process, 1500, 40000) {
    Str out; int rc; bool sig;
    std::vector<Str> a = argList(c.r);
    OP("process", (int) a.size());
    makePlan(c, true, out, rc, sig);
    Argv v(a, true);
    int p[2];
    if (pipe(p)) return;
    std::cout.flush();
    pid_t pid = fork();
    if (pid < 0) { close(p[0]); close(p[1]); return; }
    if (!pid) {
        dup2(p[1], 1); close(p[0]); close(p[1]);
        got.clear(); runs = 0;
        int res = Application(program, (int) a.size(), v.v);
        std::cout.flush();
        _exit(got == a && runs == 1 ? res : 250);
    }
    close(p[1]);
    Str text;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) text.append(buf, (size_t) n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    c.eq((bool) WIFSIGNALED(st), sig, "Application.process-ended-by-signal");
    c.eq(sig ? WTERMSIG(st) : WEXITSTATUS(st), rc, "Application.exit-status");
    c.eq(esc(text), esc(out), "Application.process-output");
    c.ev("processes");
}
WORKLOAD(environment, 6000, 200000) {
    static const std::vector<Str> names = {"VERIF_A", "VERIF_AB", "verif_a", "VERIF_", "VERIF_LONG_NAME_0123456789_0123456789", "VERIF.x-y"};
    std::map<Str, Str> env;
    for (const Str &n : names) unsetenv(n.c_str());
    int steps = 3 + c.r.upto(15);
    for (int i = 0; i < steps; ++i) {
        const Str &n = names[(size_t) c.r.upto((int) names.size())];
        switch (c.r.upto(4)) {
            case 0: { Str v = bytes(c.r, c.r.chance(5) ? 5000 : 60); OP("setenv", n, v); setenv(n.c_str(), v.c_str(), 1); env[n] = v; break; }
            case 1: OP("unsetenv", n); unsetenv(n.c_str()); env.erase(n); break;
            default: {
                OP("getenv", n);
                L::String k = J(n);
                Str g = N(L::System::getenv(k));
                c.eq(esc(g), esc(env.count(n) ? env[n] : Str("")), "System.getenv");
                c.eq(N(k), n, "System.getenv-changes-name");
                c.ev(env.count(n) ? "set_names" : "unset_names");
                if (env.count(n)) c.eq(Str(::getenv(n.c_str())), env[n], "System.getenv-changes-environment");
            }
        }
    }
    for (const Str &n : names) unsetenv(n.c_str());
}
static long wall() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
WORKLOAD(clock, 2000, 40000) {
    OP("currentTimeMillis");
    if (c.r.chance(10)) usleep((useconds_t) c.r.upto(3000));
    long a = wall(), g = L::System::currentTimeMillis(), b = wall();
    if (a <= b) c.check(g >= a && g <= b, "System.currentTimeMillis", show(g) + " outside " + show(a) + ".." + show(b));
    c.ev("clock_readings");
}
MON_MAIN
