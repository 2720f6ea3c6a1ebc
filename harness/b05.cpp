// B05: where the user's function is evaluated, for every initialiser and inner optimiser.
#include "rng.hpp"
#include "zoo.hpp"
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/grid_sampling.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/init/random_sampling_grid.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/opt/adam.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
using Eigen::VectorXd;
template <int B> // bounded?
struct BP {
    struct bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
        BO_PARAM(bool, bounded, B);
    };
    struct bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct stop_maxiterations {
        BO_PARAM(int, iterations, 3);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct kernel : limbo::defaults::kernel {
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct init_randomsampling {
        VDYN(int, samples);
    };
    struct init_lhs {
        VDYN(int, samples);
    };
    struct init_randomsamplinggrid {
        VDYN(int, samples);
        VDYN(int, bins);
    };
    struct init_gridsampling {
        VDYN(int, bins);
    };
    struct opt_gridsearch {
        VDYN(int, bins);
    };
    struct opt_nloptnograd {
        VDYN(int, iterations);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
    struct opt_nloptgrad {
        VDYN(int, iterations);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
    struct opt_parallelrepeater {
        VDYN(int, repeats);
        VDYN(double, epsilon);
    };
    struct opt_rprop {
        VDYN(int, iterations);
        VDYN(double, eps_stop);
    };
    struct opt_adam {
        VDYN(int, iterations);
        VDYN(double, alpha);
        BO_PARAM(double, b1, 0.9);
        BO_PARAM(double, b2, 0.999);
        VDYN(double, eps_stop);
    };
    struct opt_gradient_ascent {
        VDYN(int, iterations);
        VDYN(double, alpha);
        BO_PARAM(double, gamma, 0.8);
        VDYN(bool, nesterov);
        VDYN(double, eps_stop);
    };
};
typedef BP<1> BB;
typedef BP<0> BU;
struct NoModel {
    NoModel() {}
    NoModel(int, int) {}
    void compute(const std::vector<VectorXd>&, const std::vector<VectorXd>&, bool = true) {}
    void add_sample(const VectorXd&, const VectorXd&) {}
    void optimize_hyperparams() {}
    size_t dim_in() const { return 1; }
    size_t dim_out() const { return 1; }
};
// adversarial objectives (with gradients), all maximal on the border or beyond it, or flat, or spiky
static int objective = 0;
static const int BOUNDED_OBJECTIVES = 8;
static double value(const VectorXd& x, VectorXd& g)
{
    int d = x.size();
    g = VectorXd::Zero(d);
    double v = 0;
    for (int i = 0; i < d; ++i) {
        double s = i % 2 ? -1 : 1;
        switch (objective) {
        case 0: v += x[i]; g[i] = 1; break;
        case 1: v -= x[i]; g[i] = -1; break;
        case 2: v += 5e3 * s * x[i]; g[i] = 5e3 * s; break;
        case 3: break;
        case 4: v -= (x[i] - 3) * (x[i] - 3); g[i] = -2 * (x[i] - 3); break;
        case 5: v += x[i] * x[i] - x[i]; g[i] = 2 * x[i] - 1; break; // best in the corners
        case 6: v += std::abs(x[i] - 0.999) < 1e-3 ? 100 : -std::abs(x[i] + 1); g[i] = -1; break;
        case 7: v += -1e6 + 1e-3 * s * x[i]; g[i] = 1e-3 * s; break;
        case 8: v -= (x[i] - 20) * (x[i] - 20) * 0.01; g[i] = -0.02 * (x[i] - 20); break; // unbounded use
        case 9: v -= (x[i] + 0.4) * (x[i] + 0.4); g[i] = -2 * (x[i] + 0.4); break;
        }
    }
    return v;
}
template <typename P, typename M>
struct Acq {
    Acq(const M&, int) {}
    size_t dim_in() const { return 1; }
    size_t dim_out() const { return 1; }
    template <typename A>
    limbo::opt::eval_t operator()(const VectorXd& x, const A&, bool g) const
    {
        VectorXd gr;
        double v = value(x, gr);
        if (!g)
            return limbo::opt::no_grad(v);
        return limbo::opt::eval_t{v, boost::optional<VectorXd>(gr)};
    }
};
static long calls = 0;
template <int D, bool BOUNDED>
struct Fun {
    BO_PARAM(size_t, dim_in, D);
    BO_PARAM(size_t, dim_out, 1);
    VectorXd operator()(const VectorXd& x) const
    {
        calls++;
        mc::op();
        mc::check(x.size() == D, "dimension");
        for (int i = 0; i < D; ++i) {
            mc::check(x[i] == x[i] && std::abs(x[i]) < 1e300, "finite", "evaluated at " + zoo::str(x));
            if (BOUNDED)
                mc::check(x[i] >= 0 && x[i] <= 1, "outside-the-cube", mc::fmt("evaluated at coordinate %.17g", x[i]));
        }
        if (mc::ex().states.size() < 200000)
            mc::state(mc::hash_bytes(x.data(), 8 * D, D));
        VectorXd g;
        return VectorXd::Constant(1, value(x, g));
    }
};
template <typename P, typename I, typename O>
using BOT = limbo::bayes_opt::BOptimizer<P, limbo::modelfun<NoModel>, limbo::initfun<I>, limbo::acquifun<Acq<P, NoModel>>, limbo::acquiopt<O>, limbo::statsfun<boost::fusion::vector<>>>;
// several combinations of parameters; the draws after the parameter choices
static void params(int repeats)
{
    static const double EPS[] = {1e-2, 1.5};
    BB::opt_parallelrepeater::set_repeats(repeats);
    BB::opt_parallelrepeater::set_epsilon(EPS[mc::choose(2)]);
    BU::opt_parallelrepeater::set_repeats(repeats);
    BU::opt_parallelrepeater::set_epsilon(1e-2);
}
template <typename P>
static void gradient_params(int its, double eps, double scale, bool nesterov)
{
    P::opt_rprop::set_iterations(its + its / 2);
    P::opt_adam::set_iterations(its);
    P::opt_gradient_ascent::set_iterations(its);
    P::opt_rprop::set_eps_stop(eps);
    P::opt_adam::set_eps_stop(eps);
    P::opt_gradient_ascent::set_eps_stop(eps);
    P::opt_adam::set_alpha(0.3 * scale);
    P::opt_gradient_ascent::set_alpha(0.4 * scale);
    P::opt_gradient_ascent::set_nesterov(nesterov);
}
// all combinations of the settings of the gradient-based optimisers
static void gradient_settings()
{
    static const int ITS[] = {8, 1, 3};
    static const double EPS[] = {0, 0.05, 0.4, 2};
    int its = ITS[mc::choose(3)];
    double eps = EPS[mc::choose(4)];
    bool small = mc::flip(), nesterov = !mc::flip();
    gradient_params<BB>(its, eps, small ? 0.1 : 1, nesterov);
}
template <typename P, typename I, typename O, int D>
void go(int draws, int nobj, int obj0 = 0)
{
    objective = obj0 + mc::choose(nobj);
    rng::reset(draws);
    BOT<P, I, O> bo;
    calls = 0;
    bo.optimize(Fun<D, P::bayes_opt_bobase::bounded()>());
    mc::check(calls >= 3, "evaluations");
}
// ---- inner optimisers, bounded
using namespace limbo;
typedef init::NoInit<BB> NI;
template <typename O>
void inner(int draws1, int draws2, int draws3, int repeats = 2, bool settings = false)
{
    int its = mc::choose(2) ? 40 : 7;
    BB::opt_nloptnograd::set_iterations(its);
    BB::opt_nloptgrad::set_iterations(its);
    params(repeats);
    if (settings)
        gradient_settings();
    else
        gradient_params<BB>(8, 0, 1, true);
    int d = mc::choose(3);
    mc::shard();
    if (d == 0)
        go<BB, NI, O, 1>(draws1, BOUNDED_OBJECTIVES);
    else if (d == 1)
        go<BB, NI, O, 2>(draws2, BOUNDED_OBJECTIVES);
    else
        go<BB, NI, O, 4>(draws3, BOUNDED_OBJECTIVES);
}
template <nlopt::algorithm A>
using NG = opt::NLOptNoGrad<BB, A>;
template <nlopt::algorithm A>
using GR = opt::NLOptGrad<BB, A>;
#define INNER(name, T, ...) MC_SUITE(name, [] { inner<T>(__VA_ARGS__); }, 4)
#if PART == 0
INNER("random_point", opt::RandomPoint<BB>, 6, 6, 6);
INNER("rprop", opt::Rprop<BB>, 4, 4, 4, 2, true);
INNER("adam", opt::Adam<BB>, 4, 4, 4, 2, true);
INNER("gradient_ascent", opt::GradientAscent<BB>, 4, 4, 4, 2, true);
typedef opt::ParallelRepeater<BB, opt::Rprop<BB>> RepRprop;
INNER("repeated_rprop", RepRprop, 5, 5, 5);
typedef opt::ParallelRepeater<BB, opt::GradientAscent<BB>> RepGA;
INNER("repeated_ga", RepGA, 5, 5, 5);
typedef opt::Chained<BB, opt::RandomPoint<BB>, opt::Rprop<BB>, opt::Adam<BB>> ChainA;
INNER("chained_a", ChainA, 5, 5, 5);
typedef opt::ParallelRepeater<BB, opt::ParallelRepeater<BB, opt::RandomPoint<BB>>> RepRep;
INNER("repeated_repeated", RepRep, 5, 5, 5);
MC_SUITE("grid_search", [] {
    int b = 1 + mc::choose(mc::tier(64, 200));
    mc::shard();
    BB::opt_gridsearch::set_bins(b);
    go<BB, NI, opt::GridSearch<BB>, 1>(0, BOUNDED_OBJECTIVES);
}, 4);
MC_SUITE("grid_search_2", [] {
    int b = 1 + mc::choose(mc::tier(24, 40));
    mc::shard();
    BB::opt_gridsearch::set_bins(b);
    go<BB, NI, opt::GridSearch<BB>, 2>(0, BOUNDED_OBJECTIVES);
}, 4);
MC_SUITE("grid_search_3", [] {
    int b = 1 + mc::choose(10);
    mc::shard();
    BB::opt_gridsearch::set_bins(b);
    go<BB, NI, opt::GridSearch<BB>, 3>(0, BOUNDED_OBJECTIVES);
}, 4);
typedef opt::Chained<BB, opt::GridSearch<BB>, opt::Rprop<BB>> ChainG;
MC_SUITE("chained_grid", [] {
    BB::opt_gridsearch::set_bins(1 + mc::choose(12));
    gradient_settings();
    mc::shard();
    go<BB, NI, ChainG, 2>(0, BOUNDED_OBJECTIVES);
}, 4);
// ---- initialisers
typedef opt::RandomPoint<BB> RP;
static void set_samples(int n)
{
    BB::init_randomsampling::set_samples(n);
    BB::init_lhs::set_samples(n);
    BB::init_randomsamplinggrid::set_samples(n);
    BU::init_randomsampling::set_samples(n);
}
template <typename I, int D>
void init1(int draws)
{
    set_samples(1 + mc::choose(5));
    BB::init_randomsamplinggrid::set_bins(1 + mc::choose(6));
    mc::shard();
    go<BB, I, RP, D>(draws, 1);
}
MC_SUITE("init_random", [] { init1<init::RandomSampling<BB>, 1>(6); }, 4);
MC_SUITE("init_random_3", [] { init1<init::RandomSampling<BB>, 3>(6); }, 4);
MC_SUITE("init_lhs", [] { init1<init::LHS<BB>, 1>(7); }, 4);
MC_SUITE("init_lhs_3", [] { init1<init::LHS<BB>, 3>(7); }, 4);
MC_SUITE("init_rgrid", [] { init1<init::RandomSamplingGrid<BB>, 1>(6); }, 4);
MC_SUITE("init_rgrid_3", [] { init1<init::RandomSamplingGrid<BB>, 3>(6); }, 4);
template <int D>
void initg(int maxbins)
{
    BB::init_gridsampling::set_bins(1 + mc::choose(maxbins));
    mc::shard();
    go<BB, init::GridSampling<BB>, RP, D>(2, 1);
}
MC_SUITE("init_grid_1", [] { initg<1>(mc::tier(100, 1000)); }, 4);
MC_SUITE("init_grid_2", [] { initg<2>(mc::tier(30, 60)); }, 4);
MC_SUITE("init_grid_3", [] { initg<3>(mc::tier(10, 20)); }, 4);
// the grid with many bins, without running anything else
MC_SUITE("lhs_many", [] {
    set_samples(1 + mc::choose(mc::tier(200, 600)));
    go<BB, init::LHS<BB>, RP, 2>(1, 1);
}, 4);
#elif PART == 1
INNER("direct", NG<nlopt::GN_DIRECT>, 1, 1, 1);
INNER("direct_l", NG<nlopt::GN_DIRECT_L>, 1, 1, 1);
INNER("direct_l_rand", NG<nlopt::GN_DIRECT_L_RAND>, 2, 2, 2);
INNER("direct_noscal", NG<nlopt::GN_DIRECT_NOSCAL>, 1, 1, 1);
INNER("direct_l_noscal", NG<nlopt::GN_DIRECT_L_NOSCAL>, 1, 1, 1);
INNER("orig_direct", NG<nlopt::GN_ORIG_DIRECT>, 1, 1, 1);
INNER("orig_direct_l", NG<nlopt::GN_ORIG_DIRECT_L>, 1, 1, 1);
INNER("crs", NG<nlopt::GN_CRS2_LM>, 2, 2, 2);
INNER("isres", NG<nlopt::GN_ISRES>, 2, 2, 2);
INNER("esch", NG<nlopt::GN_ESCH>, 2, 2, 2);
INNER("cobyla", NG<nlopt::LN_COBYLA>, 3, 3, 3);
INNER("bobyqa", NG<nlopt::LN_BOBYQA>, 0, 3, 3);
INNER("praxis", NG<nlopt::LN_PRAXIS>, 3, 3, 3);
INNER("neldermead", NG<nlopt::LN_NELDERMEAD>, 3, 3, 3);
INNER("sbplx", NG<nlopt::LN_SBPLX>, 3, 3, 3);
#elif PART == 2
INNER("mma", GR<nlopt::LD_MMA>, 3, 3, 3);
INNER("slsqp", GR<nlopt::LD_SLSQP>, 3, 3, 3);
INNER("lbfgs", GR<nlopt::LD_LBFGS>, 3, 3, 3);
INNER("tnewton", GR<nlopt::LD_TNEWTON_PRECOND_RESTART>, 3, 3, 3);
INNER("var2", GR<nlopt::LD_VAR2>, 3, 3, 3);
INNER("ccsaq", GR<nlopt::LD_CCSAQ>, 3, 3, 3);
typedef opt::ParallelRepeater<BB, NG<nlopt::LN_SBPLX>> RepS;
INNER("repeated_sbplx", RepS, 5, 5, 5);
typedef opt::ParallelRepeater<BB, NG<nlopt::LN_COBYLA>> RepC;
INNER("repeated_cobyla", RepC, 5, 5, 5);
typedef opt::ParallelRepeater<BB, GR<nlopt::LD_LBFGS>> RepL;
INNER("repeated_lbfgs", RepL, 5, 5, 5);
typedef opt::Chained<BB, NG<nlopt::GN_DIRECT_L>, GR<nlopt::LD_LBFGS>> ChainN;
INNER("chained_nlopt", ChainN, 2, 2, 2);
typedef opt::Chained<BB, opt::ParallelRepeater<BB, NG<nlopt::LN_SBPLX>>, opt::Rprop<BB>> ChainR;
INNER("chained_repeated", ChainR, 4, 4, 4);
// ---- unbounded: finite, of the right dimension
typedef init::RandomSampling<BU> IU;
template <typename O>
void outer()
{
    static const int O_[] = {3, 8, 9};
    BU::opt_nloptnograd::set_iterations(40);
    BU::opt_nloptgrad::set_iterations(40);
    BU::init_randomsampling::set_samples(2);
    params(2);
    gradient_params<BU>(8, 0, 1, true);
    int d = mc::choose(2), o = mc::choose(3);
    objective = O_[o];
    rng::reset(0);
    rng::lcg = mc::choose(20) * 77;
    if (d)
        go<BU, IU, O, 1>(0, 1, O_[o]);
    else
        go<BU, IU, O, 3>(0, 1, O_[o]);
}
template <nlopt::algorithm A>
using UG = opt::NLOptNoGrad<BU, A>;
template <nlopt::algorithm A>
using UR = opt::NLOptGrad<BU, A>;
MC_SUITE("u_rprop", [] { outer<opt::Rprop<BU>>(); });
MC_SUITE("u_adam", [] { outer<opt::Adam<BU>>(); });
MC_SUITE("u_sbplx", [] { outer<UG<nlopt::LN_SBPLX>>(); });
MC_SUITE("u_cobyla", [] { outer<UG<nlopt::LN_COBYLA>>(); });
MC_SUITE("u_lbfgs", [] { outer<UR<nlopt::LD_LBFGS>>(); });
MC_SUITE("u_mma", [] { outer<UR<nlopt::LD_MMA>>(); });
typedef opt::ParallelRepeater<BU, UG<nlopt::LN_SBPLX>> URep;
MC_SUITE("u_repeated", [] { outer<URep>(); });
typedef opt::Chained<BU, opt::Rprop<BU>, UG<nlopt::LN_SBPLX>> UChain;
MC_SUITE("u_chained", [] { outer<UChain>(); });
#endif
MC_MAIN
