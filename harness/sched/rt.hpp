// Controlled scheduler and happens-before race detector for code compiled with clang -fsanitize=thread
// (the __tsan_* entry points are implemented in rt.cpp; the sanitizer's own runtime is not linked).
// Threads are real (so thread_local works) but exactly one runs at a time; which one is explored.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP
#include <cstddef>
namespace rt {
    // start a world with `threads` workers in total (the caller is worker 0) and at most `preemptions`
    // switches away from a thread that could have continued in the middle of a task
    // and, if not negative, at most `switches` deviations from the default order of tasks
    void begin(int threads, int preemptions, int switches = -1);
    void end();
    bool active();
    int self(); // worker running, -1 outside
    int choose(int n); // explored inside a world, 0 outside
    void point(); // a place where a preemption may be inserted
    bool ignoring();
    void ignore(int d);
    struct Ignore {
        Ignore() { ignore(1); }
        ~Ignore() { ignore(-1); }
    };
    void acquire(const void*);
    void release(const void*);
    void lock(const void*);
    void unlock(const void*);
    bool try_lock(const void*);
    // run fn(ctx, i) for all i in [0, n) as tasks; returns when all are finished (rethrows what they throw)
    void run(void (*fn)(void*, size_t), void* ctx, size_t n);
    // number of data races seen in this world, and the first one
    int races();
    const char* race();
    unsigned long switches();
    void set_chooser(int (*f)(int));
} // namespace rt
#endif
