// E01: every exception class keeps message and cause through throw/copy/catch and is caught as its supertypes only.
#include "lib.hpp"
#include "library/Java/Io.hpp"
#include "library/Java/Lang/CloneNotSupportedException/CloneNotSupportedException.hpp"
#include "library/Java/Lang/ClassCastException/ClassCastException.hpp"
#include "library/Java/Lang/NegativeArraySizeException/NegativeArraySizeException.hpp"
#include "library/Java/Lang/NoSuchElementException/NoSuchElementException.hpp"
#include "library/Java/Lang/UnsupportedOperationException/UnsupportedOperationException.hpp"
#include "library/Java/Lang/StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
#include "library/Java/Lang/ArithmeticException/ArithmeticException.hpp"
#include "library/Java/Lang/AssertionError/AssertionError.hpp"
#include "library/Java/Io/IOException/IOException.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
#include "library/Java/Security/GeneralSecurityException/GeneralSecurityException.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Util/EmptyStackException/EmptyStackException.hpp"
#include "library/Javax/Ws/Rs/WebApplicationException/WebApplicationException.hpp"
#include "library/Javax/Ws/Rs/ClientErrorException/ClientErrorException.hpp"
#include "library/Javax/Ws/Rs/BadRequestException/BadRequestException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
#include "library/Javax/Cql/CQLException/CQLException.hpp"
using mon::Ctx;
using mon::Rng;
using namespace Java::Lang;
using namespace Java::IO;
using namespace Java::Util;
using namespace Java::Security;
using namespace Javax::Ws::Rs;
using namespace Javax::Ws::Rs::Core;
using namespace Javax::Cql;
typedef Java::Lang::String S;
//  X(class, parent, has (message), has (cause) and (message, cause))
#define CLASSES(X) \
    X(Throwable, None, 1, 1) X(Exception, Throwable, 1, 1) X(Error, Throwable, 1, 1) X(AssertionError, Error, 2, 0) \
    X(RuntimeException, Exception, 1, 1) X(ArithmeticException, RuntimeException, 1, 1) X(ClassCastException, RuntimeException, 1, 1) \
    X(CloneNotSupportedException, RuntimeException, 1, 1) X(IllegalArgumentException, RuntimeException, 1, 1) \
    X(NumberFormatException, IllegalArgumentException, 1, 0) X(IndexOutOfBoundsException, RuntimeException, 1, 1) \
    X(StringIndexOutOfBoundsException, IndexOutOfBoundsException, 1, 1) X(InterruptedException, RuntimeException, 1, 1) \
    X(NegativeArraySizeException, RuntimeException, 1, 0) X(NoSuchElementException, RuntimeException, 1, 1) \
    X(UnsupportedOperationException, RuntimeException, 1, 1) X(EmptyStackException, RuntimeException, 0, 0) \
    X(IOException, Exception, 1, 1) X(UnsupportedEncodingException, IOException, 1, 0) X(GeneralSecurityException, Exception, 1, 1) \
    X(NoSuchAlgorithmException, GeneralSecurityException, 1, 1) X(WebApplicationException, RuntimeException, 1, 1) \
    X(ClientErrorException, WebApplicationException, 1, 1) X(BadRequestException, ClientErrorException, 1, 1) \
    X(MediaTypeException, Exception, 1, 1) X(CQLException, Exception, 1, 1)
struct None {};
enum Id { I_None = -1,
#define X(C, P, M, K) I_##C,
CLASSES(X)
#undef X
COUNT };
static const int PARENT[] = {
#define X(C, P, M, K) I_##P,
CLASSES(X)
#undef X
};
static const char *NAME[] = {
#define X(C, P, M, K) #C,
CLASSES(X)
#undef X
};
static bool isa(int c, int h) { for (; c >= 0; c = PARENT[c]) if (c == h) return true; return false; }

// what the monitor expects of an exception object
struct Want { Str msg; Throwable *cause; };
static void look(Ctx &c, Throwable &t, const Want &w, const Str &how) {
    c.eq(N(t.getMessage()), w.msg, "Throwable.getMessage " + how);
    c.check(t.getCause() == w.cause, "Throwable.getCause " + how, "a different cause pointer");
}
template<class H> static bool caughtBy(std::exception_ptr p, Ctx &c, const Want &w, const Str &how) {
    try { std::rethrow_exception(p); }
    catch (H &h) { look(c, h, w, how); H copy(h); look(c, copy, w, how + " copied"); H other; other = h; look(c, other, w, how + " assigned"); look(c, h, w, how + " again"); return true; }
    catch (...) { return false; }
}
typedef bool (*Catcher)(std::exception_ptr, Ctx &, const Want &, const Str &);
static const Catcher CATCH[] = {
#define X(C, P, M, K) caughtBy<C>,
CLASSES(X)
#undef X
};
// builds E in memory that is not zero, by one of its constructors
template<class E, int M, int K> struct Build;
template<class E> struct Build<E, 0, 0> { static E *at(void *p, int, const S &, Throwable *, Want &w) { w = Want{"", nullptr}; return new (p) E(); } };
template<class E> struct Build<E, 2, 0> { static E *at(void *p, int f, const S &m, Throwable *k, Want &w) { if (f % 2 == 0) { w = Want{"", nullptr}; return new (p) E(); } w = Want{N(m), k}; return new (p) E(m, k); } };
template<class E> struct Build<E, 1, 0> { static E *at(void *p, int f, const S &m, Throwable *, Want &w) { if (f % 2 == 0) { w = Want{"", nullptr}; return new (p) E(); } w = Want{N(m), nullptr}; return new (p) E(m); } };
template<class E> struct Build<E, 1, 1> {
    static E *at(void *p, int f, const S &m, Throwable *k, Want &w) {
        switch (f % 4) {
            case 0: w = Want{"", nullptr}; return new (p) E();
            case 1: w = Want{N(m), nullptr}; return new (p) E(m);
            case 2: w = Want{N(m), k}; return new (p) E(m, k);
            default: w = Want{"", k}; return new (p) E(k);
        }
    }
};
template<class E, int M, int K> static std::exception_ptr run(Ctx &c, int f, const S &m, Throwable *k, Want &w, const Str &how) {
    alignas(E) unsigned char mem[sizeof(E)];
    memset(mem, 0xa5, sizeof mem);
    E *e = Build<E, M, K>::at(mem, f, m, k, w);
    look(c, *e, w, how + " built");
    std::exception_ptr p;
    try {
        E copy(*e);
        e->~E(); memset(mem, 0x5a, sizeof mem);       // the copy does not depend on its source
        look(c, copy, w, how + " copied");
        E assigned;
        assigned = copy;
        assigned = *&assigned;
        look(c, assigned, w, how + " assigned");
        throw assigned;
    } catch (E x) { look(c, x, w, how + " caught by value"); try { throw; } catch (Throwable &t) { look(c, t, w, how + " rethrown"); p = std::current_exception(); } }
    return p;
}
typedef std::exception_ptr (*Runner)(Ctx &, int, const S &, Throwable *, Want &, const Str &);
static const Runner RUN[] = {
#define X(C, P, M, K) run<C, M, K>,
CLASSES(X)
#undef X
};
static Str text(Rng &r) {
    int n = r.size(200), style = r.upto(3);
    Str s;
    for (int i = 0; i < n; ++i) s += style == 0 ? (char) r.u64() : style == 1 ? (char) (32 + r.upto(95)) : "aA %sd\n\t"[r.upto(8)];
    return s;
}
WORKLOAD(classes, 20000, 500000) {
    int k = (int) (c.idx % COUNT), f = (int) (c.idx / COUNT);
    Str m = text(c.r), cm = text(c.r);
    OP(NAME[k], f % 4, m);
    Throwable cause(J(cm));
    Want w;
    std::exception_ptr p = RUN[k](c, f, J(m), &cause, w, NAME[k]);
    c.check((bool) p, "Throwable.not-caught-as-Throwable", NAME[k]);
    for (int h = 0; h < COUNT; ++h) {
        bool got = CATCH[h](p, c, w, Str(NAME[k]) + " as " + NAME[h]);
        c.check(got == isa(k, h), "Throwable.handler-selection", Str(NAME[k]) + (got ? " is caught by a handler for " : " is not caught by a handler for ") + NAME[h]);
        c.ev(got ? "caught_as_supertype" : "passed_unrelated_handler");
    }
    c.eq(N(cause.getMessage()), cm, "Throwable.cause-changed");
    if (w.cause) c.ev("with_cause");
    if (w.msg.empty()) c.ev("empty_messages");
}
// chains of causes of mixed classes, thrown through several frames
template<class E> static Throwable *link(const S &m, Throwable *k) { return new E(m, k); }
typedef Throwable *(*Linker)(const S &, Throwable *);
static const Linker LINK[] = {link<Throwable>, link<Exception>, link<RuntimeException>, link<Error>, link<IOException>, link<IllegalArgumentException>, link<InterruptedException>, link<MediaTypeException>};
template<class E> static void frames(int depth, const S &m, Throwable *k, int &unwound) {
    struct Count { int &n; ~Count() { ++n; } } guard{unwound};
    if (!depth) throw E(m, k);
    try { frames<E>(depth - 1, m, k, unwound); } catch (ArithmeticException &) { unwound = -1000; } catch (Exception &) { throw; }
}
WORKLOAD(chains, 4000, 80000) {
    int n = c.r.upto(12);
    OP("chain", n);
    std::vector<Throwable *> all;
    std::vector<Str> ms;
    struct Free { std::vector<Throwable *> &v; ~Free() { for (Throwable *t : v) delete t; } } fr{all};
    Throwable *prev = nullptr;
    for (int i = 0; i < n; ++i) { ms.push_back(text(c.r)); int w = c.r.upto(8); OP("link", w, ms.back()); prev = LINK[w](J(ms.back()), prev); all.push_back(prev); }
    Str top = text(c.r);
    int depth = c.r.upto(6), unwound = 0, caught = 0;
    try { frames<InterruptedException>(depth, J(top), prev, unwound); }
    catch (IllegalArgumentException &) { caught = -1; }
    catch (RuntimeException &e) {
        caught = 1;
        c.eq(N(e.getMessage()), top, "Throwable.getMessage-thrown");
        Throwable *t = e.getCause();
        for (int i = n; i-- > 0; t = t->getCause()) { c.check(t == all[(size_t) i], "Throwable.getCause-chain", "wrong link"); c.eq(N(t->getMessage()), ms[(size_t) i], "Throwable.getMessage-chain"); }
        c.check(t == nullptr, "Throwable.getCause-end", "the chain does not end with no cause");
    }
    c.eq(caught, 1, "Throwable.handler-selection");
    c.eq(unwound, depth + 1, "Throwable.unwinding");
    c.ev("links_walked", n);
}
// constructors that build the message from a value
WORKLOAD(valued, 3000, 60000) {
    int i = c.r.i32(); long l = (long) c.r.i64(); char ch = (char) (1 + c.r.upto(255)); bool b = c.r.chance(50);
    OP("valued", i, l, (int) ch, b);
    c.eq(N(AssertionError(i).getMessage()), std::to_string(i), "AssertionError(int)");
    c.eq(N(AssertionError(l).getMessage()), std::to_string(l), "AssertionError(long)");
    c.eq(N(AssertionError(ch).getMessage()), Str(1, ch), "AssertionError(char)");
    c.eq(N(AssertionError((boolean) b).getMessage()), Str(b ? "true" : "false"), "AssertionError(boolean)");
    double d = (double) c.r.range(-1000000, 1000000) / 64; float f = (float) c.r.range(-4000, 4000) / 8;
    c.eq(N(AssertionError(d).getMessage()), N(S::valueOf(d)), "AssertionError(double)");
    c.eq(N(AssertionError(f).getMessage()), N(S::valueOf(f)), "AssertionError(float)");
    Throwable cause(J("why"));
    AssertionError e(J("what"), &cause);
    look(c, e, Want{"what", &cause}, "AssertionError(message,cause)");
    c.check(AssertionError(i).getCause() == nullptr, "AssertionError.getCause", "a cause was never given");
    c.eq(N(StringIndexOutOfBoundsException(i).getMessage()), "String index out of range: " + std::to_string(i), "StringIndexOutOfBoundsException(int)");
    c.ev("valued_messages");
}
MON_MAIN
