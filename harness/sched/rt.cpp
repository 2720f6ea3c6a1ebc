#include "rt.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <linux/futex.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

// ---------------------------------------------------------------------------------------------
// state
namespace {
    const int MAXT = 4, MAXGROUP = 64;
    struct VC {
        uint32_t c[MAXT];
        void join(const VC& o)
        {
            for (int i = 0; i < MAXT; ++i)
                if (o.c[i] > c[i])
                    c[i] = o.c[i];
        }
    };
    struct Group {
        void (*fn)(void*, size_t);
        void* ctx;
        size_t n, started, finished;
        unsigned long long pending; // bit i: task i not started
        VC spawn, done;
        bool failed;
        std::exception_ptr error;
    };
    struct Thread {
        pthread_t h;
        int baton; // futex: 1 = may run
        VC vc;
        bool waiting, dead;
        bool (*pred)(void*);
        void* parg;
        int in_task;
    };
    Thread T[MAXT];
    Group* groups[MAXGROUP];
    int ngroups;
    int nthreads, preempt_left, free_left, cur, streak, polls;
    bool is_active, stopping;
    unsigned long nswitches;
    int nraces;
    char race_msg[1500];
    int (*chooser)(int);
    __thread int me __attribute__((tls_model("initial-exec"))) = -1;
    __thread int ign __attribute__((tls_model("initial-exec"))) = 0;

    void die(const char* m)
    {
        fprintf(stderr, "rt: %s\n", m);
        abort();
    }
    void fwait(int* p)
    {
        while (!__atomic_load_n(p, __ATOMIC_ACQUIRE))
            syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        __atomic_store_n(p, 0, __ATOMIC_RELAXED);
    }
    void fpost(int* p)
    {
        __atomic_store_n(p, 1, __ATOMIC_RELEASE);
        syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    void switch_to(int t)
    {
        int self = me;
        nswitches++;
        streak = 0;
        cur = t;
        fpost(&T[t].baton);
        fwait(&T[self].baton);
    }
    bool enabled(int t) { return !T[t].dead && (!T[t].waiting || T[t].pred(T[t].parg)); }
    int pick(int n)
    {
        if (n <= 1)
            return 0;
        ign++;
        int c = chooser ? chooser(n) : 0;
        ign--;
        return c;
    }
    // free: switching here is not a preemption
    void reschedule(bool free)
    {
        if (!is_active || me < 0 || ign)
            return;
        int l[MAXT], n = 0;
        l[n++] = me;
        for (int i = 1; i < nthreads; ++i) {
            int t = (me + i) % nthreads;
            if (enabled(t))
                l[n++] = t;
        }
        if (n == 1)
            return;
        if (!free && preempt_left <= 0) {
            if (++streak < 2000)
                return;
            switch_to(l[1]); // a spinning thread must let the others run
            return;
        }
        if (free && free_left == 0)
            return;
        int c = pick(n);
        if (c == 0) {
            ++streak;
            if (streak >= 2000)
                switch_to(l[1]);
            return;
        }
        if (!free)
            preempt_left--;
        else if (free_left > 0)
            free_left--;
        switch_to(l[c]);
    }
    void block(bool (*p)(void*), void* a)
    {
        T[me].waiting = false;
        while (!p(a)) {
            T[me].waiting = true;
            T[me].pred = p;
            T[me].parg = a;
            int l[MAXT], n = 0;
            for (int i = 1; i < nthreads; ++i) {
                int t = (me + i) % nthreads;
                if (enabled(t))
                    l[n++] = t;
            }
            if (n == 0)
                die("DEADLOCK: every thread waits");
            int save = ign;
            ign = 0;
            int c = pick(n);
            ign = save;
            switch_to(l[c]);
            T[me].waiting = false;
        }
    }
    void tick() { T[me].vc.c[me]++; }

    // --- synchronisation objects: address -> clock / owner
    struct Sync {
        const void* a;
        uint32_t gen;
        VC vc;
        int owner, depth; // for locks
    };
    const uint32_t NSYNC = 1 << 12;
    Sync syncs[NSYNC];
    uint32_t gen = 1;
    Sync* sync_of(const void* a)
    {
        uint64_t h = ((uint64_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 40;
        for (uint32_t i = 0; i < NSYNC; ++i) {
            Sync* s = &syncs[(h + i) & (NSYNC - 1)];
            if (s->gen != gen) {
                memset(s, 0, sizeof *s);
                s->a = a;
                s->gen = gen;
                s->owner = -1;
                return s;
            }
            if (s->a == a)
                return s;
        }
        die("too many synchronisation objects");
        return nullptr;
    }

    // --- shadow memory: one cell per 8 bytes
    struct Rec {
        uint32_t clock;
        int8_t tid;
        uint8_t mask, write, pad;
        const void* pc;
    };
    struct Cell {
        uint64_t key;
        uint32_t gen, n;
        Rec r[6];
    };
    const uint32_t NCELL = 1 << 19;
    Cell* cells;
    uint32_t used;
    Cell* cell(uint64_t key, bool create)
    {
        uint64_t h = key * 0x9E3779B97F4A7C15ull >> 44;
        for (uint32_t i = 0; i < NCELL; ++i) {
            Cell* c = &cells[(h + i) & (NCELL - 1)];
            if (c->gen != gen) {
                if (!create)
                    return nullptr;
                if (++used > NCELL * 3 / 4)
                    die("shadow memory exhausted");
                c->key = key;
                c->gen = gen;
                c->n = 0;
                return c;
            }
            if (c->key == key)
                return c;
        }
        return nullptr;
    }
    void where(const void* pc, char* out, size_t n)
    {
        Dl_info i;
        if (dladdr(pc, &i) && i.dli_sname) {
            int st = 0;
            char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
            snprintf(out, n, "%.300s", st == 0 && d ? d : i.dli_sname);
            free(d);
        }
        else
            snprintf(out, n, "%p", pc);
    }
    void report(const Rec& old, bool write, const void* pc, const void* addr)
    {
        if (nraces++)
            return;
        ign++;
        char a[400], b[400];
        where(pc, a, sizeof a);
        where(old.pc, b, sizeof b);
        snprintf(race_msg, sizeof race_msg, "data race: worker %d %s in %s, worker %d %s in %s", me, write ? "writes" : "reads", a, (int)old.tid, old.write ? "wrote" : "read", b);
        ign--;
    }
    inline void access(uintptr_t a, size_t n, bool write, const void* pc)
    {
        if (!is_active || me < 0 || ign || nraces)
            return;
        uintptr_t e = a + n;
        while (a < e) {
            uintptr_t g = a >> 3;
            uintptr_t ge = (g + 1) << 3;
            uintptr_t stop = e < ge ? e : ge;
            uint8_t mask = (uint8_t)(((1u << (stop - a)) - 1) << (a & 7));
            Cell* c = cell(g, true);
            uint32_t clk = T[me].vc.c[me];
            int slot = -1;
            for (uint32_t i = 0; i < c->n; ++i) {
                Rec& r = c->r[i];
                if (r.tid == me) {
                    if (r.write == write && (r.mask & ~mask) == 0)
                        slot = i;
                }
                else if ((r.mask & mask) && (write || r.write) && r.clock > T[me].vc.c[(int)r.tid])
                    report(r, write, pc, (void*)a);
            }
            if (slot < 0) {
                if (c->n < 6)
                    slot = c->n++;
                else { // forget the record that is already ordered before us, or the first
                    slot = 0;
                    for (uint32_t i = 0; i < c->n; ++i)
                        if (c->r[i].clock <= T[me].vc.c[(int)c->r[i].tid]) {
                            slot = i;
                            break;
                        }
                }
            }
            Rec& r = c->r[slot];
            r.clock = clk;
            r.tid = me;
            r.mask = mask;
            r.write = write;
            r.pc = pc;
            a = stop;
        }
    }
    void fresh(void* p, size_t n)
    {
        if (!is_active || !p || me < 0)
            return;
        uintptr_t a = (uintptr_t)p;
        for (uintptr_t g = a >> 3; g <= (a + n) >> 3; ++g) {
            Cell* c = cell(g, false);
            if (c)
                c->n = 0;
        }
    }

    // --- tasks
    bool anything(void*)
    {
        if (stopping)
            return true;
        for (int g = 0; g < ngroups; ++g)
            if (groups[g]->pending)
                return true;
        return false;
    }
    bool group_moves(void* p)
    {
        Group* g = (Group*)p;
        return g->finished == g->started && (!g->pending) ? true : anything(nullptr);
    }
    // take and run one pending task (of any group, as a work-stealing scheduler does)
    bool run_one()
    {
        struct Cand {
            Group* g;
            int i;
        } c[8];
        int n = 0;
        // innermost groups first; of every group the first and the last pending task
        for (int g = ngroups - 1; g >= 0 && n < 6; --g)
            if (groups[g]->pending) {
                unsigned long long p = groups[g]->pending;
                int lo = __builtin_ctzll(p), hi = 63 - __builtin_clzll(p);
                c[n].g = groups[g];
                c[n++].i = lo;
                if (hi != lo) {
                    c[n].g = groups[g];
                    c[n++].i = hi;
                }
            }
        if (n == 0)
            return false;
        int which = free_left == 0 ? 0 : pick(n);
        if (which && free_left > 0)
            free_left--;
        Cand k = c[which];
        Group* g = k.g;
        g->pending &= ~(1ull << k.i);
        g->started++;
        T[me].vc.join(g->spawn);
        tick();
        T[me].in_task++;
        reschedule(true);
        bool cancelled = g->failed;
        if (!cancelled) {
            try {
                g->fn(g->ctx, k.i);
            }
            catch (...) {
                ign++;
                if (!g->failed) {
                    g->failed = true;
                    g->error = std::current_exception();
                    g->started += __builtin_popcountll(g->pending);
                    g->finished += __builtin_popcountll(g->pending);
                    g->pending = 0;
                }
                ign--;
            }
        }
        T[me].in_task--;
        g->done.join(T[me].vc);
        tick();
        g->finished++;
        reschedule(true);
        return true;
    }
    void* worker(void* p)
    {
        int id = (int)(intptr_t)p;
        fwait(&T[id].baton);
        me = id;
        while (true) {
            block(anything, nullptr);
            if (stopping)
                break;
            run_one();
        }
        T[id].dead = true;
        me = -1;
        fpost(&T[0].baton);
        return nullptr;
    }
} // namespace

namespace rt {
    bool active() { return is_active && me >= 0; }
    int self() { return me; }
    int races() { return nraces; }
    const char* race() { return race_msg; }
    unsigned long switches() { return nswitches; }
    void set_chooser(int (*f)(int)) { chooser = f; }
    int choose(int n)
    {
        if (!active() || nthreads < 1 || ign || free_left == 0)
            return 0;
        int c = pick(n);
        if (c && free_left > 0)
            free_left--;
        return c;
    }
    void ignore(int d) { ign += d; }
    bool ignoring() { return ign > 0; }
    void point() { reschedule(false); }
    void begin(int threads, int preemptions, int switches_)
    {
        if (is_active)
            die("nested world");
        if (!cells)
            cells = (Cell*)calloc(NCELL, sizeof(Cell));
        gen++;
        used = 0;
        nthreads = threads;
        preempt_left = preemptions;
        free_left = switches_;
        ngroups = 0;
        stopping = false;
        nraces = 0;
        race_msg[0] = 0;
        nswitches = 0;
        streak = polls = 0;
        memset(T, 0, sizeof T);
        me = 0;
        cur = 0;
        ign = 0;
        for (int i = 0; i < threads; ++i)
            T[i].vc.c[i] = 1;
        for (int i = 1; i < threads; ++i) {
            T[i].vc.join(T[0].vc);
            T[i].waiting = true;
            T[i].pred = anything;
            if (pthread_create(&T[i].h, nullptr, worker, (void*)(intptr_t)i))
                die("pthread_create");
        }
        T[0].vc.c[0]++;
        is_active = true;
    }
    void end()
    {
        if (!is_active)
            return;
        stopping = true;
        for (int i = 1; i < nthreads; ++i) {
            fpost(&T[i].baton);
            fwait(&T[0].baton);
            is_active = false;
            pthread_join(T[i].h, nullptr);
            is_active = true;
        }
        is_active = false;
        me = -1;
    }
    void acquire(const void* a)
    {
        if (is_active && me >= 0 && !ign)
            T[me].vc.join(sync_of(a)->vc);
    }
    void release(const void* a)
    {
        if (is_active && me >= 0 && !ign) {
            sync_of(a)->vc.join(T[me].vc);
            tick();
        }
    }
    static bool is_free(void* p)
    {
        Sync* s = (Sync*)p;
        return s->owner < 0 || s->owner == me;
    }
    // the waiting thread's predicate is evaluated by others: compare with the waiting thread
    struct LockWait {
        Sync* s;
    };
    static bool unowned(void* p) { return ((Sync*)p)->owner < 0; }
    void lock(const void* a)
    {
        if (!is_active || me < 0 || ign)
            return;
        point();
        Sync* s = sync_of(a);
        if (s->owner == me)
            s->depth++;
        else {
            block(unowned, s);
            s->owner = me;
            s->depth = 1;
        }
        T[me].vc.join(s->vc);
    }
    bool try_lock(const void* a)
    {
        if (!is_active || me < 0 || ign)
            return true;
        point();
        Sync* s = sync_of(a);
        if (s->owner >= 0 && s->owner != me)
            return false;
        s->owner = me;
        s->depth++;
        T[me].vc.join(s->vc);
        return true;
    }
    void unlock(const void* a)
    {
        if (!is_active || me < 0 || ign)
            return;
        Sync* s = sync_of(a);
        if (--s->depth <= 0) {
            s->owner = -1;
            s->depth = 0;
        }
        s->vc.join(T[me].vc);
        tick();
        point();
    }
    void run(void (*fn)(void*, size_t), void* ctx, size_t n)
    {
        if (!active() || nthreads < 2 || ign) {
            for (size_t i = 0; i < n; ++i)
                fn(ctx, i);
            return;
        }
        if (n == 0)
            return;
        // more than 63 tasks: in blocks, as a partitioner would
        struct Blocks {
            void (*fn)(void*, size_t);
            void* ctx;
            size_t n, per;
            static void call(void* p, size_t i)
            {
                Blocks* b = (Blocks*)p;
                for (size_t k = i * b->per; k < (i + 1) * b->per && k < b->n; ++k)
                    b->fn(b->ctx, k);
            }
        } blocks = {fn, ctx, n, 0};
        Group g;
        g.fn = fn;
        g.ctx = ctx;
        g.n = n;
        if (n > 16) {
            blocks.per = (n + 7) / 8;
            g.fn = Blocks::call;
            g.ctx = &blocks;
            g.n = (n + blocks.per - 1) / blocks.per;
        }
        g.started = g.finished = 0;
        g.pending = (1ull << g.n) - 1;
        g.failed = false;
        memset(&g.done, 0, sizeof g.done);
        g.spawn = T[me].vc;
        tick();
        if (ngroups == MAXGROUP)
            die("too deep");
        groups[ngroups++] = &g;
        reschedule(true);
        while (g.pending || g.finished < g.started) {
            if (anything(nullptr) && run_one())
                continue;
            struct W {
                static bool done(void* p)
                {
                    Group* g = (Group*)p;
                    return (!g->pending && g->finished == g->started) || anything(nullptr);
                }
            };
            block(W::done, &g);
        }
        for (int i = 0; i < ngroups; ++i)
            if (groups[i] == &g) {
                for (int k = i; k + 1 < ngroups; ++k)
                    groups[k] = groups[k + 1];
                ngroups--;
                break;
            }
        T[me].vc.join(g.done);
        tick();
        if (g.failed)
            std::rethrow_exception(g.error);
    }
} // namespace rt

// ---------------------------------------------------------------------------------------------
// instrumentation entry points
extern "C" {
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() { ign++; }
void __tsan_ignore_thread_end() { ign--; }
#define RW(N)                                                                                      \
    void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, RA); }                           \
    void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, RA); }                           \
    void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, RA); }                 \
    void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, RA); }                 \
    void __tsan_read_write##N(void* a) { access((uintptr_t)a, N, true, RA); }                      \
    void __tsan_unaligned_read_write##N(void* a) { access((uintptr_t)a, N, true, RA); }            \
    void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, RA); }                  \
    void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, RA); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, RA); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, RA); }
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v)
        access((uintptr_t)a, 8, true, RA);
}
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access((uintptr_t)s, n, false, RA);
    access((uintptr_t)d, n, true, RA);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access((uintptr_t)s, n, false, RA);
    access((uintptr_t)d, n, true, RA);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    access((uintptr_t)d, n, true, RA);
    return memset(d, c, n);
}
} // extern "C"
// relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5
static inline void at_point(const void* a)
{
    if (is_active && me >= 0 && !ign)
        rt::point();
}
static inline void at_acq(const void* a, int mo)
{
    if (is_active && me >= 0 && !ign && mo != 0 && mo != 3)
        T[me].vc.join(sync_of(a)->vc);
}
static inline void at_rel(const void* a, int mo, bool rmw)
{
    if (is_active && me >= 0 && !ign) {
        Sync* s = sync_of(a);
        if (mo >= 3) {
            if (rmw)
                s->vc.join(T[me].vc);
            else
                s->vc = T[me].vc;
            tick();
        }
        else if (!rmw)
            memset(&s->vc, 0, sizeof s->vc);
    }
}
template <typename V>
static V at_load(const volatile V* a, int mo)
{
    // byte loads (guards of local statics, flags) are not switch points: whether a guard is already set must not
    // change the choices, and the other side of a flag has its own switch points
    if (sizeof(V) > 1)
        at_point((const void*)a);
    else if (is_active && me >= 0 && !ign && ++polls > 1000) {
        polls = 0;
        rt::point();
    }
    V v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
    at_acq((const void*)a, mo);
    return v;
}
extern "C" {
#define ATOMIC(B, V)                                                                               \
    V __tsan_atomic##B##_load(const volatile V* a, int mo) { return at_load<V>(a, mo); }           \
    void __tsan_atomic##B##_store(volatile V* a, V v, int mo)                                      \
    {                                                                                              \
        at_point((const void*)a);                                                                  \
        at_rel((const void*)a, mo, false);                                                         \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    V __tsan_atomic##B##_exchange(volatile V* a, V v, int mo)                                      \
    {                                                                                              \
        at_point((const void*)a);                                                                  \
        at_acq((const void*)a, mo);                                                                \
        at_rel((const void*)a, mo, true);                                                          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                              \
    int __tsan_atomic##B##_compare_exchange_strong(volatile V* a, V* e, V d, int mo, int fmo)      \
    {                                                                                              \
        at_point((const void*)a);                                                                  \
        int r = __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
        at_acq((const void*)a, r ? mo : fmo);                                                      \
        if (r)                                                                                     \
            at_rel((const void*)a, mo, true);                                                      \
        return r;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##B##_compare_exchange_weak(volatile V* a, V* e, V d, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, d, mo, fmo); } \
    V __tsan_atomic##B##_compare_exchange_val(volatile V* a, V e, V d, int mo, int fmo)            \
    {                                                                                              \
        __tsan_atomic##B##_compare_exchange_strong(a, &e, d, mo, fmo);                             \
        return e;                                                                                  \
    }
#define FETCH(B, V, OP)                                                                            \
    V __tsan_atomic##B##_fetch_##OP(volatile V* a, V v, int mo)                                    \
    {                                                                                              \
        at_point((const void*)a);                                                                  \
        at_acq((const void*)a, mo);                                                                \
        at_rel((const void*)a, mo, true);                                                          \
        return __atomic_fetch_##OP(a, v, __ATOMIC_SEQ_CST);                                        \
    }
#define ALL(B, V)                                                                                  \
    ATOMIC(B, V)                                                                                   \
    FETCH(B, V, add)                                                                               \
    FETCH(B, V, sub)                                                                               \
    FETCH(B, V, and)                                                                               \
    FETCH(B, V, or)                                                                                \
    FETCH(B, V, xor)                                                                               \
    FETCH(B, V, nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// --- memory: a new block has no history
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    fresh(p, n);
    return p;
}
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    fresh(p, a * b);
    return p;
}
void* realloc(void* q, size_t n)
{
    void* p = __libc_realloc(q, n);
    fresh(p, n);
    return p;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    fresh(p, n);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n)
{
    *p = memalign(a, n);
    return *p ? 0 : ENOMEM;
}

// --- locks used by code in headers
#define WORLD (is_active && me >= 0 && !ign)
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!WORLD)
        return __real_pthread_mutex_lock(m);
    rt::lock(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!WORLD)
        return __real_pthread_mutex_unlock(m);
    rt::unlock(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!WORLD)
        return __real_pthread_mutex_trylock(m);
    return rt::try_lock(m) ? 0 : EBUSY;
}
// readers exclude each other too: fewer schedules, but no false alarm (they are ordered like lock users);
// to keep read-read concurrency visible to the race detector readers do not publish their clock to readers
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!WORLD)
        return __real_pthread_rwlock_rdlock(m);
    rt::lock(m);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!WORLD)
        return __real_pthread_rwlock_wrlock(m);
    rt::lock(m);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!WORLD)
        return __real_pthread_rwlock_unlock(m);
    rt::unlock(m);
    return 0;
}
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!WORLD)
        return __real_pthread_once(o, f);
    rt::lock(o);
    if (*o == 0) {
        *o = 2;
        f();
    }
    rt::unlock(o);
    return 0;
}
// local statics: the first byte of the guard says initialised
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    if (!WORLD)
        return __real___cxa_guard_acquire(g);
    // the initialisation is not interrupted
    T[me].vc.join(sync_of(g)->vc);
    if (*(char*)g)
        return 0;
    ((char*)g)[5] = 1; // taken here, not by the run time library
    ign++;
    return 1;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    if (!((char*)g)[5]) {
        __real___cxa_guard_release(g);
        return;
    }
    ((char*)g)[5] = 0;
    *(char*)g = 1;
    ign--;
    rt::release(g);
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    if (!((char*)g)[5]) {
        __real___cxa_guard_abort(g);
        return;
    }
    ((char*)g)[5] = 0;
    ign--;
}
} // extern "C"
