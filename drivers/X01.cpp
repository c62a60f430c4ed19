// X01: object life histories.  Every copy keeps its own value and every history gives back all memory it took.
#include "lives.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
// a workload that keeps growing live memory each time it is repeated leaks; one-time caches do not
template<class F> static void steady(Ctx &c, const Str &key, F f) {
    f();
    size_t grown[3];
    for (size_t &g : grown) { size_t a = live(); f(); size_t b = live(); g = b > a ? b - a : 0; if (!g) { c.ev("steady_histories"); return; } }
    c.fail(key, "each repetition leaves more memory allocated: " + std::to_string(grown[0]) + ", " + std::to_string(grown[1]) + ", " + std::to_string(grown[2]) + " bytes");
}
template<class T> static void life(Ctx &c, int most = 60) {
    uint64_t seed = c.r.u64();
    int steps = 5 + c.r.upto(std::min(most, c.idx % 10 == 0 ? 60 : 25));
    { Life<T> l(seed, &c); l.run(steps); }
    steady(c, Str("leak:") + Of<T>::name(), [&]() { Life<T> l(seed, nullptr); l.run(steps); });
}
WORKLOAD(texts, 1200, 40000) { switch (c.idx % 4) { case 3: life<StringBufferUnSafe>(c); break; case 0: life<S>(c); break; case 1: life<StringBuilder>(c); break; default: life<StringBuffer>(c); } }
WORKLOAD(numbers, 900, 20000) { switch (c.idx % 8) { case 0: life<Integer>(c); break; case 1: life<Long>(c); break; case 2: life<Short>(c); break; case 3: life<Bytes>(c); break; case 4: life<Character>(c); break; case 5: life<Boolean>(c); break; case 6: life<Float>(c); break; default: life<Double>(c); } }
WORKLOAD(lists, 1200, 40000) { switch (c.idx % 6) { case 0: life<ListS>(c); break; case 1: life<ListI>(c); break; case 2: life<VecS>(c); break; case 3: life<VecI>(c); break; case 4: life<StackS>(c); break; default: life<LinkS>(c); } }
WORKLOAD(maps, 1000, 30000) { switch (c.idx % 6) { case 0: life<MapS>(c); break; case 1: life<MapL>(c); break; case 2: life<SetS>(c); break; case 3: life<PrioS>(c); break; case 4: life<ArrS>(c); break; default: life<ArrA>(c); } }
WORKLOAD(utilities, 1200, 40000) { switch (c.idx % 7) { case 0: life<U::BitSet>(c); break; case 1: life<U::Date>(c); break; case 2: life<U::UUID>(c); break; case 3: life<U::TimeZone>(c); break; case 4: life<MediaType>(c); break; case 5: life<MessageDigest>(c); break; default: life<U::Random>(c); } }
WORKLOAD(exceptions, 600, 15000) { switch (c.idx % 3) { case 0: life<Throwable>(c); break; case 1: life<Exception>(c); break; default: life<ArithmeticException>(c); } }
WORKLOAD(concurrent_maps, 8, 160) { life<ChmS>(c, 8); }
WORKLOAD(calls, 3000, 60000) {
    const Call &k = CALLS[c.idx / 3 % NCALLS];
    uint64_t seed = c.r.u64();
    OP(k.name, (long) seed);
    int times = 1 + c.r.upto(4);
    Str how;
    auto once = [&](bool note) { Rng r(seed); for (int i = 0; i < times; ++i) { bool ok = true; try { k.run(r); } catch (...) { ok = false; } if (note) c.ev(ok ? "completed_calls" : "refused_calls"); } };
    once(true);
    steady(c, Str("leak:") + k.name, [&]() { once(false); });
}
MON_MAIN
