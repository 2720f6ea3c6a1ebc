// Exploring the schedules of a piece of parallel code.  With -DSEQ the code under test is built without
// threads, and every world has one schedule.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include <cstddef>
#include <exception>
#include <thread>
#ifdef SEQ
namespace rt {
    inline void begin(int, int, int = -1) {}
    inline void end() {}
    inline int races() { return 0; }
    inline const char* race() { return ""; }
    inline unsigned long switches() { return 0; }
    inline void point() {}
    inline int self() { return 0; }
    inline void set_chooser(int (*)(int)) {}
    struct Ignore {
        Ignore() {}
        ~Ignore() {}
    };
    template <typename F>
    inline void tasks(size_t n, const F& f)
    {
        for (size_t i = 0; i < n; ++i)
            f(i);
    }
} // namespace rt
#else
#include "sched/rt.hpp"
#define MC_GUARD ::rt::Ignore mc_guard_
namespace rt {
    // n client threads: one task each, which may be cut anywhere within the preemption bound
    template <typename F>
    inline void tasks(size_t n, const F& f)
    {
        struct C {
            static void call(void* p, size_t i) { (*(const F*)p)(i); }
        };
        run(&C::call, (void*)&f, n);
    }
} // namespace rt
#endif
#include "mc.hpp"
namespace world {
    struct World {
        World(int threads, int preemptions, int switches)
        {
            rt::set_chooser([](int n) { return mc::choose(n); });
            rt::begin(threads, preemptions, switches);
        }
        ~World() { rt::end(); }
    };
    // f under every schedule of `threads` workers with at most `preemptions` preemptions inside tasks
    template <typename F>
    inline void run(int threads, int preemptions, const F& f, int switches = -1)
    {
#ifdef SEQ
        f();
#else
        // in a new thread, so that thread-local variables are initialised in every execution alike
        std::exception_ptr error;
        std::thread([&] {
            try {
                World w(threads, preemptions, switches);
                f();
            }
            catch (...) {
                error = std::current_exception();
            }
        }).join();
        if (error)
            std::rethrow_exception(error);
#endif
        mc::op(1 + rt::switches());
        mc::check(rt::races() == 0, "race", rt::race());
    }
} // namespace world
#endif
