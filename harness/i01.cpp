// I01: the designs evaluated by the initialisers.
#include "rng.hpp"
#include "zoo.hpp"
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/grid_sampling.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/init/random_sampling_grid.hpp>
#include <limbo/opt/random_point.hpp>
using Eigen::VectorXd;
using namespace limbo;
template <int B>
struct BP {
    struct bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
        BO_PARAM(bool, bounded, B);
    };
    struct bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct stop_maxiterations {
        BO_PARAM(int, iterations, 0);
    };
    struct init_randomsampling {
        VDYN(int, samples)
    };
    struct init_lhs {
        VDYN(int, samples)
    };
    struct init_randomsamplinggrid {
        VDYN(int, samples)
        VDYN(int, bins)
    };
    struct init_gridsampling {
        VDYN(int, bins)
    };
};
typedef BP<1> BB;
typedef BP<0> BU;
struct NoModel {
    NoModel() {}
    NoModel(int, int) {}
    void compute(const std::vector<VectorXd>&, const std::vector<VectorXd>&, bool = true) {}
    void add_sample(const VectorXd&, const VectorXd&) {}
    void optimize_hyperparams() {}
    size_t dim_in() const { return 1; }
    size_t dim_out() const { return 1; }
};
template <typename P, typename M>
struct NoAcq {
    NoAcq(const M&, int) {}
    template <typename A>
    opt::eval_t operator()(const VectorXd&, const A&, bool) const { return opt::no_grad(0); }
};
static std::vector<VectorXd> X;
template <int D>
struct Fun {
    BO_PARAM(size_t, dim_in, D);
    BO_PARAM(size_t, dim_out, 1);
    VectorXd operator()(const VectorXd& x) const
    {
        mc::op();
        mc::check(x.size() == D, "dimension", mc::fmt("%d instead of %d", (int)x.size(), D));
        for (int i = 0; i < D; ++i)
            mc::check(std::isfinite(x[i]), "finite", zoo::str(x));
        X.push_back(x);
        return VectorXd::Constant(1, (double)X.size());
    }
};
// runs the initialiser alone, returns what was evaluated
template <typename P, typename I, int D>
void design(bool cube = true)
{
    typedef bayes_opt::BOptimizer<P, modelfun<NoModel>, initfun<I>, acquifun<NoAcq<P, NoModel>>, acquiopt<opt::RandomPoint<P>>, statsfun<boost::fusion::vector<>>> BO;
    X.clear();
    BO bo;
    bo.optimize(Fun<D>());
    mc::check(bo.samples().size() == X.size() && bo.observations().size() == X.size(), "recorded", mc::fmt("%zu evaluated, %zu recorded", X.size(), bo.samples().size()));
    for (size_t i = 0; i < X.size(); ++i) {
        mc::check(bo.samples()[i] == X[i] && bo.observations()[i][0] == i + 1.0, "recorded-pairs");
        if (cube)
            mc::check(X[i].minCoeff() >= 0 && X[i].maxCoeff() <= 1, "outside-the-cube", zoo::str(X[i]));
    }
    mc::check(bo.total_iterations() == 0, "iterations");
    uint64_t h = D;
    for (auto& x : X)
        h = mc::hash_bytes(x.data(), 8 * D, h);
    mc::state(h);
}
static void count(int n) { mc::check((int)X.size() == n, "number-of-points", mc::fmt("%zu points evaluated instead of %d", X.size(), n)); }
// ---- random sampling
template <typename P, int D>
void random_sampling(int maxn, int draws, int letters)
{
    int n = mc::choose(maxn + 1);
    mc::shard();
    P::init_randomsampling::set_samples(n);
    rng::reset(draws, letters);
    design<P, init::RandomSampling<P>, D>(P::bayes_opt_bobase::bounded());
    count(n);
}
MC_SUITE("random_1", [] { random_sampling<BB, 1>(6, 6, 4); }, 8);
MC_SUITE("random_2", [] { random_sampling<BB, 2>(4, 7, 4); }, 8);
MC_SUITE("random_4", [] { random_sampling<BB, 4>(3, 7, 4); }, 8);
MC_SUITE("random_unbounded", [] { random_sampling<BU, 2>(12, 0, 1); });
template <typename P, int D>
void spread(double lo, double hi)
{
    P::init_randomsampling::set_samples(400);
    rng::reset(0);
    rng::lcg = mc::choose(20) * 7919;
    design<P, init::RandomSampling<P>, D>(P::bayes_opt_bobase::bounded());
    count(400);
    for (int d = 0; d < D; ++d) {
        double a = INFINITY, b = -INFINITY;
        for (auto& x : X) {
            a = std::min(a, x[d]);
            b = std::max(b, x[d]);
        }
        mc::check(a < lo && b > hi, "domain-not-covered", mc::fmt("coordinate %d stays in [%g,%g]", d, a, b));
    }
}
MC_SUITE("random_spread_1", [] { spread<BB, 1>(0.1, 0.9); });
MC_SUITE("random_spread_3", [] { spread<BB, 3>(0.1, 0.9); });
MC_SUITE("random_spread_unbounded", [] { spread<BU, 2>(-3, 4); });
// ---- latin hypercube
template <int D>
void lhs(int n, int draws, int letters)
{
    BB::init_lhs::set_samples(n);
    rng::reset(draws, letters);
    design<BB, init::LHS<BB>, D>();
    count(n);
    for (int d = 0; d < D; ++d) {
        std::vector<double> c;
        for (auto& x : X)
            c.push_back(x[d]);
        std::sort(c.begin(), c.end());
        for (int i = 0; i < n; ++i)
            mc::check(c[i] >= i / (double)n - 1e-9 && c[i] <= (i + 1) / (double)n + 1e-9, "slice-not-covered", mc::fmt("dimension %d, slice %d of %d: %.12g", d, i, n, c[i]));
    }
}
MC_SUITE("lhs_1", [] { int n = mc::choose(5); mc::shard(); lhs<1>(n, 8, 4); }, 5);
MC_SUITE("lhs_2", [] { int n = 1 + mc::choose(4); mc::shard(); lhs<2>(n, mc::tier(9, 11), 3); }, 4);
MC_SUITE("lhs_3", [] { int n = 1 + mc::choose(3); mc::shard(); lhs<3>(n, mc::tier(9, 12), 3); }, 3);
MC_SUITE("lhs_shuffle", [] { // the draws of the points fixed, those of the permutations enumerated as far as possible
    int n = 2 + mc::choose(3), skip = n;
    mc::shard();
    BB::init_lhs::set_samples(n);
    lhs<1>(n, skip + 4, 5);
}, 3);
MC_SUITE("lhs_sizes", [] {
    int n = 1 + mc::choose(mc::tier(300, 1000)), s = mc::choose(3);
    mc::shard();
    BB::init_lhs::set_samples(n);
    rng::lcg = s;
    lhs<3>(n, 0, 1);
}, 4);
MC_SUITE("lhs_extremes", [] { // every draw at an extreme
    int n = 1 + mc::choose(60), k = mc::choose(5);
    uint64_t keep = rng::ALL[k];
    (void)keep;
    BB::init_lhs::set_samples(n);
    rng::reset(0);
    rng::lcg = 0;
    lhs<2>(n, 0, 1);
});
// different dimensions are permuted separately: over many designs the order is not always the same
MC_SUITE("lhs_permuted", [] {
    bool differ = false, moved = false;
    for (int k = 0; k < 40; ++k) {
        BB::init_lhs::set_samples(5);
        rng::reset(0);
        rng::lcg = 1234567ull * k;
        X.clear();
        design<BB, init::LHS<BB>, 2>();
        for (int i = 0; i < 5; ++i) {
            differ |= (int)(X[i][0] * 5) != (int)(X[i][1] * 5);
            moved |= (int)(X[i][0] * 5) != i;
        }
    }
    mc::check(differ && moved, "lhs-not-permuted", "the slices of the dimensions are always combined in the same way");
});
// ---- regular grid
template <int D>
void grid(int b)
{
    BB::init_gridsampling::set_bins(b);
    design<BB, init::GridSampling<BB>, D>();
    int want = 1;
    for (int i = 0; i < D; ++i)
        want *= b + 1;
    count(want);
    std::vector<std::vector<long>> seen;
    for (auto& x : X) {
        std::vector<long> n;
        for (int i = 0; i < D; ++i) {
            n.push_back(std::lround(x[i] * b));
            mc::check(std::abs(x[i] * b - n[i]) < 1e-8, "not-a-node", mc::fmt("%.17g with %d bins", x[i], b));
        }
        seen.push_back(n);
    }
    std::sort(seen.begin(), seen.end());
    mc::check(std::unique(seen.begin(), seen.end()) == seen.end(), "node-repeated");
}
MC_SUITE("grid_1", [] { int b = 1 + mc::choose(mc::tier(512, 3000)); mc::shard(); grid<1>(b); }, 4);
MC_SUITE("grid_2", [] { int b = 1 + mc::choose(mc::tier(60, 120)); mc::shard(); grid<2>(b); }, 4);
MC_SUITE("grid_3", [] { int b = 1 + mc::choose(mc::tier(18, 30)); mc::shard(); grid<3>(b); }, 4);
MC_SUITE("grid_4", [] { int b = 1 + mc::choose(7); mc::shard(); grid<4>(b); }, 4);
// ---- random points of a grid
template <int D>
void rgrid(int n, int b, int draws, int letters)
{
    BB::init_randomsamplinggrid::set_samples(n);
    BB::init_randomsamplinggrid::set_bins(b);
    rng::reset(draws, letters);
    design<BB, init::RandomSamplingGrid<BB>, D>();
    count(n);
    for (auto& x : X)
        for (int i = 0; i < D; ++i)
            mc::check(std::abs(x[i] * b - std::lround(x[i] * b)) < 1e-8, "not-a-node", mc::fmt("%.17g with %d bins", x[i], b));
}
MC_SUITE("rgrid_1", [] { int n = mc::choose(6), b = 1 + mc::choose(12); mc::shard(); rgrid<1>(n, b, 5, 5); }, 8);
MC_SUITE("rgrid_3", [] { int n = mc::choose(3), b = 1 + mc::choose(12); mc::shard(); rgrid<3>(n, b, 6, 4); }, 8);
MC_SUITE("rgrid_spread", [] {
    int b = 1 + mc::choose(8);
    rgrid<2>(800, b, 0, 1);
    std::vector<std::vector<int>> hit(2, std::vector<int>(b + 1, 0));
    for (auto& x : X)
        for (int i = 0; i < 2; ++i)
            hit[i][std::lround(x[i] * b)]++;
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k <= b; ++k)
            mc::check(hit[i][k] > 0, "grid-node-never-drawn", mc::fmt("node %d of %d bins in dimension %d", k, b, i));
});
MC_SUITE("none", [] {
    design<BB, init::NoInit<BB>, 2>();
    count(0);
});
MC_MAIN
