// Included before everything else (-include): the engine limbo's generators are built on is replaced by one
// whose outputs the explorer chooses.  Code using another engine still works, its draws are then not enumerated.
#ifndef VERIF_RNG_PRELUDE_HPP
#define VERIF_RNG_PRELUDE_HPP
#include <algorithm>
#include <cstdint>
#include <iostream>
#include <limits>
#include <random>
extern uint64_t verif_rng_draw();
namespace std {
    struct verif_engine {
        typedef uint64_t result_type;
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return ~(result_type)0; }
        static constexpr result_type default_seed = 5489u;
        verif_engine() {}
        explicit verif_engine(result_type) {}
        template <typename S, typename = typename std::enable_if<std::is_class<typename std::remove_reference<S>::type>::value>::type>
        explicit verif_engine(S&&) {}
        void seed(result_type = default_seed) {}
        template <typename S, typename = typename std::enable_if<std::is_class<typename std::remove_reference<S>::type>::value>::type>
        void seed(S&&) {}
        uint64_t state = 0; // written by every draw, like that of a real engine
        result_type operator()()
        {
            state++;
            return verif_rng_draw();
        }
        void discard(unsigned long long n)
        {
            while (n--)
                verif_rng_draw();
        }
        bool operator==(const verif_engine&) const { return true; }
        bool operator!=(const verif_engine&) const { return false; }
    };
} // namespace std
#define mt19937 verif_engine
#define mt19937_64 verif_engine
#endif
