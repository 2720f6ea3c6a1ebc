// P03: the random generators: thread-private, reproducible when seeded, within range.
#include "world.hpp"
#include <set>
#ifdef PRELUDE
#include "rng.hpp"
#endif
#include "zoo.hpp"
#include <limbo/tools/random_generator.hpp>
using namespace limbo;
using Eigen::VectorXd;
using Eigen::MatrixXd;

template <typename V>
static bool inside(const V& v) { return v.size() == 0 || (v.array() == v.array() && v.array() >= 0 && v.array() <= 1).all(); }
static void check_lhs(const MatrixXd& m, int dim, int n)
{
    mc::check(m.rows() == n && m.cols() == dim && inside(m), "range", "Latin hypercube sample");
}

#ifndef PRELUDE
// --- any number of threads draw at once; the workers are new in every execution, so are their generators
static void draw(int kind, int dim)
{
    if (kind == 0)
        mc::check(tools::random_vector_bounded(dim).size() == dim && inside(tools::random_vector(dim, true)), "range", "bounded random vector");
    else if (kind == 1) {
        VectorXd v = tools::random_vector(dim, false), w = tools::random_vector_unbounded(dim);
        mc::check(v.size() == dim && v.allFinite() && w.size() == dim && w.allFinite(), "range", "unbounded random vector");
    }
    else if (kind == 2)
        check_lhs(tools::random_lhs(dim, 3), dim, 3);
    else {
        // a generator of one's own, seeded: nothing another thread does changes its sequence
        tools::rgen_gauss_t a(0., 1., 5);
        tools::rgen_double_t b(0., 1., 5);
        tools::rgen_int_t c(-2, 3, kind == 3 ? 5 : -1);
        std::mt19937 e(5);
        for (int i = 0; i < 3; ++i) {
            double x = a.rand(), y = b.rand();
            int z = c.rand();
            mc::check(std::isfinite(x) && y >= 0 && y <= 1 && z >= -2 && z <= 3, "range", "own generator");
        }
    }
}
MC_SUITE(
    "threads", [] {
        int threads = 2 + mc::choose(2), n = threads + mc::choose(2), dim = 1 + mc::choose(2);
        std::vector<int> kind(n);
        for (int i = 0; i < n; ++i)
            kind[i] = i < 2 ? mc::choose(5) : i == 2 ? 2 * mc::choose(2) : 0;
        mc::shard();
        world::run(threads, 1, [&] { rt::tasks(n, [&](size_t i) { draw(kind[i], dim); draw(kind[(i + 1) % n], dim); }); }, threads == 2 ? 2 : mc::tier(1, 2));
        mc::state(mc::fmt("t%d %d %d %llx", threads, n, dim, (unsigned long long)mc::hash_bytes(kind.data(), n * 4)));
    },
    16);
MC_SUITE(
    "seeded_threads", [] {
        int threads = 2 + mc::choose(2), kind = mc::choose(3), same = mc::choose(2);
        int lens[3] = {1 + mc::choose(3), 1 + mc::choose(3), 2};
        mc::shard();
        auto seq = [&](int i) {
            std::vector<double> r;
            tools::rgen_double_t d(-1., 2., 7 + (same ? 0 : i));
            tools::rgen_gauss_t g(0., 2., 7 + (same ? 0 : i));
            tools::rgen_int_t z(0, 9, 7 + (same ? 0 : i));
            for (int k = 0; k < lens[i]; ++k) {
                r.push_back(kind == 0 ? d.rand() : (kind == 1 ? g.rand() : z.rand()));
                rt::point();
                if (k == 0)
                    tools::random_vector(2, k % 2);
            }
            return r;
        };
        std::vector<std::vector<double>> expect, got(threads);
        for (int i = 0; i < threads; ++i)
            expect.push_back(seq(i));
        world::run(threads, 1, [&] { rt::tasks(threads, [&](size_t i) { got[i] = seq(i); }); }, threads == 2 ? 2 : mc::tier(1, 2));
        for (int i = 0; i < threads; ++i)
            mc::check(expect[i] == got[i], "seeded-threads", mc::fmt("the sequence of seeded generator %d depends on other threads", i));
        mc::state(mc::fmt("s%d %d %d", threads, kind, same));
    },
    8);

// --- histories of two generators and the shared functions
// operations on generator g: 0-2 seed, 3 draw, 4 draw two, 5 reset, 6 random seed, 7 set the same range again
template <typename R>
struct Gen {
    typedef typename R::result_type T;
    R r;
    T a, b;
    bool normal;
    int seed;
    std::vector<int> since;   // operations since it was seeded
    std::vector<double> seen; // what it gave since
    Gen(T a_, T b_, bool nrm, int s) : r(a_, b_, s), a(a_), b(b_), normal(nrm), seed(s) {}
    static double one(R& r) { return r.rand(); }
    static void go(R& r, int op, T a, T b, std::vector<double>& out)
    {
        switch (op) {
        case 3: out.push_back(r.rand()); break;
        case 4: {
            VectorXd v = tools::random_vec(2, r);
            mc::check(v.size() == 2, "size");
            out.push_back(v[0]);
            out.push_back(v[1]);
            break;
        }
        case 5: r.reset(); break;
        case 7: r.param(params((R*)nullptr, a, b)); break;
        }
    }
    static std::uniform_real_distribution<double>::param_type params(tools::rgen_double_t*, double a, double b) { return std::uniform_real_distribution<double>::param_type(a, b); }
    static std::normal_distribution<>::param_type params(tools::rgen_gauss_t*, double a, double b) { return std::normal_distribution<>::param_type(a, b); }
    static std::uniform_int_distribution<int>::param_type params(tools::rgen_int_t*, int a, int b) { return std::uniform_int_distribution<int>::param_type(a, b); }
    void apply(int op)
    {
        static const int S[3] = {0, 1, 42};
        if (op < 3) {
            seed = S[op];
            r.seed(seed);
            since.clear();
            seen.clear();
            return;
        }
        if (op == 6) {
            seed = -1;
            r.seed();
            since.clear();
            seen.clear();
            return;
        }
        since.push_back(op);
        go(r, op, a, b, seen);
    }
    void verify()
    {
        for (double v : seen)
            mc::check(std::isfinite(v) && (normal || (v >= a && v <= b)), "range", mc::fmt("%.17g drawn outside the range", v));
        if (seed < 0)
            return;
        std::vector<double> expect;
        R fresh(a, b, seed);
        for (int op : since)
            go(fresh, op, a, b, expect);
        mc::check(expect == seen, "reproducible", mc::fmt("a generator seeded with %d does not give the sequence of a new one with this seed", seed));
    }
};
template <typename R>
static void history(typename R::result_type a, typename R::result_type b, bool normal, int depth)
{
    Gen<R> g0(a, b, normal, 0), g1(a, b, normal, 1);
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(12);
        if (i == 1)
            mc::shard();
        mc::op();
        if (op < 8)
            g0.apply(op);
        else if (op == 8)
            g1.apply(3);
        else if (op == 9)
            g1.apply(1);
        else if (op == 10)
            mc::check(inside(tools::random_vector(3)) && tools::random_vector(3, false).allFinite(), "range");
        else
            check_lhs(tools::random_lhs(2, 2), 2, 2);
        g0.verify();
        g1.verify();
        mc::state(mc::fmt("h%d %zu %d %zu %d", normal, g0.since.size(), g0.seed, g1.since.size(), g1.seed));
    }
}
MC_SUITE("history_double", [] { history<tools::rgen_double_t>(-1., 3., false, mc::tier(5, 6)); }, 12);
MC_SUITE("history_gauss", [] { history<tools::rgen_gauss_t>(0., 10., true, mc::tier(5, 6)); }, 12);
MC_SUITE("history_int", [] { history<tools::rgen_int_t>(-2, 5, false, mc::tier(5, 6)); }, 12);

// --- ranges and seeds
MC_SUITE(
    "ranges", [] {
        static const std::vector<std::pair<double, double>> D = {{0, 1}, {-2, 2}, {0, 1e-12}, {-1e6, 1e6}, {5, 5.5}, {-1, 0}};
        static const std::vector<std::pair<int, int>> I = {{0, 0}, {0, 1}, {-3, 3}, {0, 9}, {5, 6}, {-2147483647 - 1, 2147483647}, {-7, -5}};
        int kind = mc::choose(2), which = mc::choose(kind ? I.size() : D.size()), block = mc::choose(mc::tier(8, 64));
        mc::shard();
        std::set<int> hit;
        std::set<double> firsts;
        for (int seed = block * 50; seed < (block + 1) * 50; ++seed) {
            if (kind == 0) {
                tools::rgen_double_t r(D[which].first, D[which].second, seed), q(D[which].first, D[which].second, seed);
                for (int i = 0; i < 400; ++i) {
                    double v = r.rand();
                    mc::check(v >= D[which].first && v <= D[which].second, "range", mc::fmt("seed %d draw %d: %.17g", seed, i, v));
                    mc::check(v == q.rand(), "reproducible");
                    if (i == 0)
                        firsts.insert(v);
                }
            }
            else {
                tools::rgen_int_t r(I[which].first, I[which].second, seed), q(I[which].first, I[which].second, seed);
                for (int i = 0; i < 400; ++i) {
                    int v = r.rand();
                    mc::check(v >= I[which].first && v <= I[which].second, "range", mc::fmt("seed %d draw %d: %d", seed, i, v));
                    mc::check(v == q.rand(), "reproducible");
                    hit.insert(v);
                }
            }
            mc::op(400);
        }
        if (kind == 0)
            mc::check(firsts.size() > 40, "seed", "different seeds give the same sequence");
        else if ((double)I[which].second - I[which].first < 20)
            mc::check((int)hit.size() == I[which].second - I[which].first + 1, "range", "a value of the range is never drawn");
        mc::state(mc::fmt("r%d %d %d", kind, which, block));
    },
    8);
#else
// --- extreme outputs of the engine
MC_SUITE(
    "extreme_bounded", [] {
        int n = 1 + mc::choose(3);
        rng::reset(6, 5);
        for (int i = 0; i < 2; ++i) {
            VectorXd v = tools::random_vector_bounded(n), w = tools::random_vector(n);
            mc::check(v.size() == n && inside(v) && w.size() == n && inside(w), "range");
            mc::op(2);
        }
        mc::state(mc::fmt("b%d", n));
    },
    8);
MC_SUITE(
    "extreme_lhs", [] {
        int n = 1 + mc::choose(3), dim = 1 + mc::choose(2);
        rng::reset(mc::tier(6, 8), 3);
        check_lhs(tools::random_lhs(dim, n), dim, n);
        mc::op();
        mc::state(mc::fmt("l%d %d", n, dim));
    },
    8);
MC_SUITE(
    "extreme_own", [] {
        static const std::vector<std::pair<double, double>> D = {{0, 1}, {-2, 2}, {0, 1e-12}, {-1e6, 1e6}, {5, 5.5}, {-1, 0}, {0.1, 0.3}};
        static const std::vector<std::pair<int, int>> I = {{0, 0}, {0, 1}, {-3, 3}, {0, 9}, {5, 6}, {-2147483647 - 1, 2147483647}};
        int kind = mc::choose(2), which = mc::choose(kind ? I.size() : D.size());
        rng::reset(4, 5);
        if (kind == 0) {
            tools::rgen_double_t r(D[which].first, D[which].second, mc::choose(2) - 1);
            for (int i = 0; i < 4; ++i) {
                double v = r.rand();
                mc::check(v >= D[which].first && v <= D[which].second, "range", mc::fmt("%.17g", v));
            }
        }
        else {
            tools::rgen_int_t r(I[which].first, I[which].second, mc::choose(2) - 1);
            for (int i = 0; i < 4; ++i) {
                int v = r.rand();
                mc::check(v >= I[which].first && v <= I[which].second, "range", mc::fmt("%d", v));
            }
        }
        mc::op(4);
        mc::state(mc::fmt("e%d %d", kind, which));
    },
    4);
#endif
MC_MAIN
