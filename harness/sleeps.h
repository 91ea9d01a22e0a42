// A few sleeps of every kind of duration on one platform: none is shorter than asked, none much longer.
// Included where `estd` may stand for another name of the library.
#pragma once
namespace sleeps {
template <class P, class Rep, class Period> void one(estd::chrono::duration<Rep, Period>, long long count)
{
    // exactly what was asked, in nanoseconds, rounded up
    __int128 n = __int128((Rep)count) * Period::num * 1000000000, need = n > 0 ? (n + Period::den - 1) / Period::den : 0;
    if(need > P::most()) return;
    typedef estd::chrono::duration<Rep, Period> D; D d((Rep)count); __int128 a = P::now(); P::sleep(d); __int128 took = P::now() - a;
    sim::log("%s: %lld of %d/%d s took %lld ns", P::name(), count, (int)Period::num, (int)Period::den, (long long)took); sim::nontrivial(); sim::state(sim::mix((uint64_t)count, Period::den * 31 + Period::num));
    SIM_CHECK(took + P::least() >= need, "woke-early", "%s: a sleep of %lld ns ended after %lld", P::name(), (long long)need, (long long)took);
    SIM_CHECK(took <= need + P::slack(), "woke-late", "%s: a sleep of %lld ns ended after %lld", P::name(), (long long)need, (long long)took);
}
template <class P> void some()
{
    using namespace estd::chrono;
    for(int k = sim::range(1, 6); k--;)
    {
        long long c; switch(sim::choose(6)) { case 5: c = -(long long)sim::choose(100000); break; case 0: c = sim::choose(5); break; case 1: c = 1000LL * sim::choose(3000); break; case 2: c = sim::choose(1000000); break; case 3: c = sim::choose(5000) + 997; break; default: c = (long long)sim::choose(4000000) * (1 + sim::choose(1000)); }
        switch(sim::choose(7))
        {
            case 0: one<P>(milliseconds(), c); break;
            case 1: one<P>(microseconds(), c); break;
            case 2: one<P>(nanoseconds(), c); break;
            case 3: one<P>(seconds(), c % 100000); break;
            case 4: one<P>(minutes(), c % 1000); break;
            case 5: one<P>(duration<long long, estd::ratio<1, 3>>(), c % 1000000); break;
            default: one<P>(duration<int, estd::ratio<1, 1024>>(), c % 2000000); break;
        }
    }
}
}
