// The explorer's side of rng_prelude.hpp.
#ifndef VERIF_RNG_HPP
#define VERIF_RNG_HPP
#include "mc.hpp"
namespace rng {
    // the first `budget` draws are chosen from the alphabet, the following ones are a fixed sequence
    static int budget = 0;
    static uint64_t lcg = 1, draws = 0;
    static const std::vector<uint64_t> ALL = {0, ~0ull, 0x8000000000000000ull, 0x4ccccccccccccccdull, 0xb333333333333333ull};
    static std::vector<uint64_t> alphabet = {0, ~0ull, 0x8000000000000000ull};
    inline void reset(int n, int letters = 3)
    {
        budget = n;
        lcg = 1;
        draws = 0;
        alphabet.assign(ALL.begin(), ALL.begin() + letters);
    }
    inline uint64_t next()
    {
        MC_GUARD;
        draws++;
        if (budget > 0) {
            budget--;
            return alphabet[mc::choose(alphabet.size())];
        }
        lcg += 0x9e3779b97f4a7c15ull;
        uint64_t z = lcg;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
} // namespace rng
uint64_t verif_rng_draw() { return rng::next(); }
#endif
