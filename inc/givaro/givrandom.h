// Stand-in for Givaro's pseudo-random generator: every draw is a fresh symbolic input, so that randomised routines are
// checked for every possible outcome of their random choices (one residue class representative per draw).
#ifndef __GIVARO_random_H
#define __GIVARO_random_H
#include <givaro/givconfig.h>
#include <givaro/udl.h>
#include <givaro/givtimer.h>
#include <cstdint>
#ifndef VS_RNDMAX
#ifdef PRIME
#define VS_RNDMAX ((int64_t)(PRIME) - 1)
#else
#define VS_RNDMAX 2147483646
#endif
#endif
extern "C" int64_t vs_i64(const char* name, int64_t idx, int64_t lo, int64_t hi);
namespace Givaro {
    inline int64_t& vs_rndcount() { static int64_t c = 0; return c; }
    class GivRandom {
        mutable uint64_t _seed;
    public:
        typedef GivRandom random_generator; typedef uint64_t random_t; typedef uint64_t seed_t;
        GivRandom(const uint64_t s = 0) : _seed(s ? s : 1) {}
        GivRandom(const GivRandom& R) : _seed(R._seed) {}
        GivRandom& operator= (const GivRandom& R) { _seed = R._seed; return *this; }
        uint64_t seed() const { return _seed; }
        uint64_t max_rand() const { return 2147483647; }
        uint64_t operator() () const { return (uint64_t)vs_i64("rnd", vs_rndcount()++, 0, VS_RNDMAX); }
        bool brand() const { return this->operator()() & 1; }
        template<class XXX> XXX& operator() (XXX& x) const { return x = (XXX)this->operator() (); }
    };
}
#endif
