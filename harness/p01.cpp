// P01: the parallel primitives, under every schedule of the controlled scheduler (or, with -DSEQ, sequentially).
#include "world.hpp"
#include <limbo/tools/parallel.hpp>
#include <atomic>
#include <list>
#include <mutex>
#include <set>
namespace par = limbo::tools::par;
#ifdef SEQ
static const int MAXT = 1;
#else
static const int MAXT = 3;
#endif

// what the body of a loop does besides marking its index
static void noise(int kind, std::mutex& m, std::atomic<int>& a, int& shared)
{
    if (kind == 1) {
        std::lock_guard<std::mutex> g(m);
        shared++;
    }
    else if (kind == 2)
        a.fetch_add(1);
}

MC_SUITE(
    "loop", [] {
        int threads = 1 + mc::choose(MAXT);
        size_t b = mc::choose(3), n = mc::choose(mc::tier(5, 6));
        if (threads == 3 && n > 3)
            n = 3;
        int kind = mc::choose(3);
        mc::shard();
        mc::note(mc::fmt("loop [%zu,%zu) on %d threads, body %d", b, b + n, threads, kind));
        std::vector<int> calls(b + n + 3, 0);
        std::mutex m;
        std::atomic<int> a(0);
        int shared = 0;
        world::run(threads, kind ? 1 : 0, [&] {
            par::loop(b, b + n, [&](size_t i) {
                if (i >= calls.size())
                    mc::fail("loop-index", mc::fmt("body called with %zu", i));
                calls[i]++;
                noise(kind, m, a, shared);
            });
            for (size_t i = 0; i < calls.size(); ++i) // everything is finished, and visible, when the loop returns
                mc::check(calls[i] == (i >= b && i < b + n), "loop-calls", mc::fmt("index %zu: %d calls", i, calls[i]));
            mc::check(shared + a.load() == (kind ? (int)n : 0), "loop-count");
        }, n > 3 || threads == 3 ? 4 : -1);
        mc::state(mc::fmt("l%d %zu %zu %d", threads, b, n, kind));
    },
    24);

MC_SUITE(
    "loop_large", [] {
        int threads = 1 + mc::choose(MAXT);
        static const std::vector<size_t> N = {15, 16, 17, 18, 31, 63, 64, 65, 100, 257};
        size_t b = mc::choose(2) ? 7 : 0, n = mc::pick(N);
        mc::shard();
        std::vector<int> calls(b + n + 3, 0);
        world::run(threads, 0, [&] {
            par::loop(b, b + n, [&](size_t i) {
                if (i >= calls.size())
                    mc::fail("loop-index", mc::fmt("body called with %zu", i));
                calls[i]++;
            });
            for (size_t i = 0; i < calls.size(); ++i)
                mc::check(calls[i] == (i >= b && i < b + n), "loop-calls", mc::fmt("index %zu of [%zu,%zu): %d calls", i, b, b + n, calls[i]));
        }, 2);
        mc::state(mc::fmt("L%d %zu %zu", threads, b, n));
    },
    16);

MC_SUITE(
    "loop_nested", [] {
        int threads = 1 + mc::choose(MAXT);
        int n = 1 + mc::choose(2), k = 1 + mc::choose(2);
        mc::shard();
        int calls[3][3] = {};
        world::run(threads, 0, [&] {
            par::loop(0, n, [&](size_t i) {
                par::loop(0, k, [&](size_t j) { calls[i][j]++; });
                for (int j = 0; j < 3; ++j)
                    mc::check(calls[i][j] == (j < k), "nested-inner");
            });
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j)
                    mc::check(calls[i][j] == (i < n && j < k), "nested-outer");
        }, threads == 3 ? 4 : mc::tier(6, 9));
        mc::state(mc::fmt("n%d %d %d", threads, n, k));
    },
    12);

template <typename C>
static void foreach_case(int threads, size_t n)
{
    C c;
    std::vector<int> calls(n, 0);
    for (size_t i = 0; i < n; ++i)
        c.push_back(i);
    world::run(threads, 0, [&] {
        par::for_each(c.begin(), c.end(), [&](int& x) {
            if (x < 0 || x >= (int)calls.size())
                mc::fail("foreach-element", mc::fmt("called with %d", x));
            calls[x]++;
            x = x + 100;
        });
        size_t i = 0;
        for (auto& x : c) {
            mc::check(calls[i] == 1, "foreach-calls", mc::fmt("element %zu: %d calls", i, calls[i]));
            mc::check(x == (int)i + 100, "foreach-inplace");
            ++i;
        }
    }, n > 3 || threads == 3 ? 4 : -1);
}
MC_SUITE(
    "for_each", [] {
        int threads = 1 + mc::choose(MAXT);
        size_t n = mc::choose(5);
        int kind = mc::choose(2);
        mc::shard();
        mc::note(mc::fmt("for_each over %zu on %d threads", n, threads));
        if (kind == 0)
            foreach_case<std::vector<int>>(threads, n);
        else
            foreach_case<std::list<int>>(threads, n);
        mc::state(mc::fmt("f%d %zu %d", threads, n, kind));
    },
    16);

MC_SUITE(
    "replicate", [] {
        int threads = 1 + mc::choose(MAXT);
        int n = mc::choose(5);
        int kind = 1 + mc::choose(2);
        mc::shard();
        mc::note(mc::fmt("replicate %d on %d threads", n, threads));
        std::mutex m;
        std::atomic<int> a(0);
        int shared = 0;
        world::run(threads, 1, [&] {
            par::replicate(n, [&] { noise(kind, m, a, shared); });
            mc::check(shared + a.load() == n, "replicate-calls", mc::fmt("%d calls instead of %d", shared + a.load(), n));
        }, n > 3 || threads == 3 ? 4 : -1);
        mc::state(mc::fmt("r%d %d %d", threads, n, kind));
    },
    12);

// --- max
struct Big { // like a pair (point, value): copied, and checked to be whole
    std::vector<double> x;
    double v;
};
MC_SUITE(
    "max", [] {
        int threads = 1 + mc::choose(MAXT);
        int n = mc::choose(threads == 3 ? 4 : 5);
        static const std::vector<double> V = {-2, 0, 5};
        static const std::vector<double> I = {-1e300, 0, 1, 7};
        std::vector<double> v(n);
        for (auto& x : v)
            x = mc::pick(V);
        double init = mc::pick(I);
        mc::shard();
        bool lower = mc::flip();
        mc::note(mc::fmt("max of %d on %d threads, init %g, lower %d", n, threads, init, lower));
        std::vector<int> calls(n + 2, 0);
        auto beats = [&](double a, double b) { return lower ? a < b : a > b; };
        if (lower)
            init = -init;
        world::run(threads, 0, [&] {
            Big r = par::max(
                Big{std::vector<double>(1, -1.0), init}, n,
                [&](int i) {
                    if (i < 0 || i >= n)
                        mc::fail("max-index", mc::fmt("called with %d", i));
                    calls[i]++;
                    return Big{std::vector<double>(3, (double)i), v[i]};
                },
                [&](const Big& a, const Big& b) { return beats(a.v, b.v); });
            for (int i = 0; i < n; ++i) {
                mc::check(calls[i] == 1, "max-calls", mc::fmt("index %d: %d calls", i, calls[i]));
                mc::check(!beats(v[i], r.v), "max-beaten", mc::fmt("result %g but index %d has %g", r.v, i, v[i]));
            }
            mc::check(!beats(init, r.v), "max-init", mc::fmt("result %g but the initial value is %g", r.v, init));
            mc::check(!r.x.empty(), "max-whole");
            if (r.x[0] < 0)
                mc::check(r.v == init, "max-whole");
            else
                mc::check(r.x.size() == 3 && r.v == v[(int)r.x[0]], "max-whole", "the value returned is not that of the element returned");
        }, n <= 2 && threads <= 2 ? -1 : threads == 3 ? 2 : mc::tier(3, 4));
        mc::state(mc::fmt("m%d %d %g", threads, n, init) + mc::fmt("%llx", (unsigned long long)mc::hash_bytes(v.data(), v.size() * 8)));
    },
    24);
MC_SUITE(
    "max_large", [] {
        int threads = 1 + mc::choose(MAXT > 2 ? 2 : 1);
        static const std::vector<int> N = {5, 8, 9, 17, 33};
        int n = mc::pick(N), at = mc::choose(n);
        mc::shard();
        std::vector<int> calls(n, 0);
        world::run(threads, 0, [&] {
            double r = par::max(
                -1.0, n,
                [&](int i) {
                    calls.at(i)++;
                    return i == at ? 3.0 : -0.5;
                },
                [&](double a, double b) { return a > b; });
            for (int i = 0; i < n; ++i)
                mc::check(calls[i] == 1, "max-calls", mc::fmt("index %d of %d: %d calls", i, n, calls[i]));
            mc::check(r == 3.0, "max-beaten", mc::fmt("%d elements, largest at %d: %g", n, at, r));
        }, n > 9 ? mc::tier(1, 2) : mc::tier(2, 3));
        mc::state(mc::fmt("M%d %d %d", threads, n, at));
    },
    16);

// --- sort
struct Item {
    int key, id;
};
MC_SUITE(
    "sort", [] {
        int threads = 1 + mc::choose(MAXT);
        int n = mc::choose(threads == 3 ? 5 : mc::tier(6, 8));
        std::vector<Item> v(n);
        for (int i = 0; i < n; ++i)
            v[i] = Item{mc::choose(3), i};
        mc::shard();
        bool down = mc::flip();
        int from = n ? mc::choose(2) : 0;
        std::vector<Item> w = v;
        world::run(threads, 0, [&] {
            par::sort(w.begin() + from, w.end(), [&](const Item& a, const Item& b) { return down ? a.key > b.key : a.key < b.key; });
        }, 2);
        std::multiset<int> ids;
        for (int i = from; i < n; ++i) {
            mc::check(v[w[i].id].key == w[i].key, "sort-permutation");
            ids.insert(w[i].id);
            if (i > from)
                mc::check(down ? w[i - 1].key >= w[i].key : w[i - 1].key <= w[i].key, "sort-order");
        }
        for (int i = from; i < n; ++i)
            mc::check(ids.count(i) == 1, "sort-permutation", mc::fmt("element %d occurs %zu times", i, ids.count(i)));
        if (from)
            mc::check(w[0].id == 0 && w[0].key == v[0].key, "sort-range");
        mc::state(mc::fmt("s%d %d %d", threads, n, down));
    },
    16);

// --- containers filled by loops
MC_SUITE(
    "vector", [] {
        int threads = 1 + mc::choose(MAXT);
        int n = mc::choose(4);
        mc::shard();
        world::run(threads, 1, [&] {
            typename par::vector<Item>::type v;
            par::loop(0, n, [&](size_t i) {
#ifdef SEQ
                v.push_back(Item{(int)i * 3, (int)i});
#else
                v.push_back(Item{(int)i * 3, (int)i});
#endif
            });
            auto c = par::convert_vector(v);
            mc::check((int)c.size() == n, "vector-size");
            std::set<int> ids;
            for (auto& x : c) {
                mc::check(x.key == 3 * x.id, "vector-element");
                ids.insert(x.id);
            }
            mc::check((int)ids.size() == n, "vector-element");
        }, threads == 3 ? 4 : -1);
        mc::state(mc::fmt("v%d %d", threads, n));
    },
    8);

// an exception thrown by the body leaves the loop, whatever the schedule
MC_SUITE(
    "exception", [] {
        int threads = 1 + mc::choose(MAXT);
        int n = 1 + mc::choose(3), at = mc::choose(n), kind = mc::choose(4);
        mc::shard();
        bool seen = false;
        std::vector<int> calls(n, 0);
        world::run(threads, 0, [&] {
            try {
                auto body = [&](size_t i) {
                    calls[i]++;
                    if ((int)i == at)
                        throw 5;
                };
                if (kind == 0)
                    par::loop(0, n, body);
                else if (kind == 1) {
                    std::vector<int> e(n);
                    for (int i = 0; i < n; ++i)
                        e[i] = i;
                    par::for_each(e.begin(), e.end(), [&](int& i) { body(i); });
                }
                else if (kind == 2)
                    par::max(-1.0, n, [&](int i) { body(i); return 1.0; }, [](double a, double b) { return a > b; });
                else
                    par::replicate(n, [&] { throw 5; });
            }
            catch (int x) {
                seen = x == 5;
            }
        }, threads == 3 ? 4 : -1);
        mc::check(seen, "exception-lost");
        for (int c : calls)
            mc::check(c <= 1, "exception-calls");
        mc::state(mc::fmt("e%d %d %d %d", threads, n, at, kind));
    },
    8);

MC_MAIN
