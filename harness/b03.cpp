// B03: the reported best pair after every sequence of observed values.
#include "mc.hpp"
#include "zoo.hpp"
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/model/gp.hpp>
using Eigen::VectorXd;
struct BP {
    struct bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, false);
        BO_PARAM(bool, bounded, true);
    };
    struct bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct kernel : limbo::defaults::kernel {
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 0);
    };
};
BO_DECLARE_DYN_PARAM(int, BP::stop_maxiterations, iterations);
// a model that accepts anything: only the record matters here
struct NoModel {
    NoModel() {}
    NoModel(int, int) {}
    void compute(const std::vector<VectorXd>&, const std::vector<VectorXd>&, bool = true) {}
    void add_sample(const VectorXd&, const VectorXd&) {}
    void optimize_hyperparams() {}
    size_t dim_in() const { return 1; }
    size_t dim_out() const { return 1; }
};
template <typename P, typename M>
struct NoAcq {
    NoAcq(const M&, int) {}
    size_t dim_in() const { return 1; }
    size_t dim_out() const { return 1; }
    template <typename A>
    limbo::opt::eval_t operator()(const VectorXd&, const A&, bool) const { return limbo::opt::no_grad(0); }
};
static int counter = 0;
struct NextPoint { // every point evaluated differs
    template <typename F>
    VectorXd operator()(const F&, const VectorXd& i, bool) const { return VectorXd::Constant(i.size(), ++counter / 1024.0); }
};
typedef limbo::bayes_opt::BOptimizer<BP, limbo::modelfun<NoModel>, limbo::initfun<limbo::init::NoInit<BP>>, limbo::acquifun<NoAcq<BP, NoModel>>, limbo::acquiopt<NextPoint>, limbo::statsfun<boost::fusion::vector<>>> BO;

struct First {
    double operator()(const VectorXd& y) const { return y[0]; }
};
struct Last {
    double operator()(const VectorXd& y) const { return y[y.size() - 1]; }
};
struct Sum {
    double operator()(const VectorXd& y) const { return y.sum(); }
};
struct Neg {
    double operator()(const VectorXd& y) const { return -y[0]; }
};
struct Abs {
    double operator()(const VectorXd& y) const { return y.cwiseAbs().maxCoeff(); }
};
struct Flat {
    double operator()(const VectorXd&) const { return -3; }
};
struct MinusInf { // nothing is acceptable
    double operator()(const VectorXd& y) const { return y[0] > 1 ? y[0] : -INFINITY; }
};
static const std::vector<double> SCALARS = {-1.0, 0.0, 1.0, -1e300, 1e300, 5e-324};
static const std::vector<VectorXd> VECTORS = {(VectorXd(2) << 1, -2).finished(), (VectorXd(2) << -1, 2).finished(), (VectorXd(2) << 1, 2).finished(), (VectorXd(2) << 0, 0).finished(), (VectorXd(2) << -5, -1e10).finished()};
template <typename A>
void best(const BO& bo, const std::vector<VectorXd>& X, const std::vector<VectorXd>& Y, const A& a, const char* name)
{
    const VectorXd &s = bo.best_sample(a), &o = bo.best_observation(a);
    bool pair = false;
    double mx = -INFINITY;
    for (size_t i = 0; i < X.size(); ++i) {
        pair |= X[i] == s && Y[i] == o;
        mx = std::max(mx, a(Y[i]));
    }
    mc::op();
    mc::check(pair, "best-is-a-recorded-pair", mc::fmt("%s: (%s, %s)", name, zoo::str(s).c_str(), zoo::str(o).c_str()));
    mc::check(a(o) == mx, "best-is-maximal", mc::fmt("%s: %.17g, the record has %.17g", name, a(o), mx));
}
static void all(const BO& bo, const std::vector<VectorXd>& X, const std::vector<VectorXd>& Y)
{
    best(bo, X, Y, First(), "first");
    best(bo, X, Y, Sum(), "sum");
    best(bo, X, Y, Neg(), "neg");
    best(bo, X, Y, Abs(), "abs");
    best(bo, X, Y, Last(), "last");
    best(bo, X, Y, Flat(), "flat");
    best(bo, X, Y, MinusInf(), "-inf");
    best(bo, X, Y, [](const VectorXd& y) { return y[0] * 2 - 1; }, "lambda");
    // the default is the first component
    bool pair = false;
    double mx = -INFINITY;
    for (size_t i = 0; i < X.size(); ++i) {
        pair |= X[i] == bo.best_sample() && Y[i] == bo.best_observation();
        mx = std::max(mx, Y[i][0]);
    }
    mc::check(pair, "default-best-is-a-recorded-pair");
    uint64_t h = mc::hash_str("record");
    for (auto& y : Y)
        h = mc::hash_bytes(y.data(), 8 * y.size(), h);
    mc::state(h);
    mc::check(bo.best_observation()[0] == mx, "default-best-is-maximal");
}
// recorded directly
template <typename V>
void direct(const std::vector<V>& alphabet, int n, bool same_point)
{
    BO bo;
    std::vector<VectorXd> X, Y;
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(alphabet.size());
        if (i == 1)
            mc::shard();
        X.push_back(VectorXd::Constant(1, same_point ? (i % 2) / 2.0 : i / 16.0));
        Y.push_back(VectorXd(alphabet[k]));
        bo.add_new_sample(X.back(), Y.back());
        if (mc::fresh())
            all(bo, X, Y);
    }
}
static std::vector<VectorXd> scalars()
{
    std::vector<VectorXd> v;
    for (double d : SCALARS)
        v.push_back(VectorXd::Constant(1, d));
    return v;
}
MC_SUITE("scalars", [] { direct(scalars(), mc::tier(6, 8), false); }, 16);
MC_SUITE("vectors", [] { direct(VECTORS, mc::tier(6, 8), false); }, 16);
MC_SUITE("same_points", [] { direct(VECTORS, mc::tier(5, 7), true); }, 8);
// through runs with resume and reset
template <int DOUT>
struct Fun {
    BO_PARAM(size_t, dim_in, 1);
    BO_PARAM(size_t, dim_out, DOUT);
    std::vector<VectorXd>*X, *Y;
    const std::vector<VectorXd>* alphabet;
    VectorXd operator()(const VectorXd& x) const
    {
        X->push_back(x);
        Y->push_back((*alphabet)[mc::choose(alphabet->size())]);
        return Y->back();
    }
};
template <int DOUT>
void runs(const std::vector<VectorXd>& alphabet, int n)
{
    int b0 = 1 + mc::choose(n), reset = mc::choose(2), b1 = 1 + mc::choose(n - b0 + 1);
    mc::shard();
    counter = 0;
    BO bo;
    std::vector<VectorXd> X, Y;
    Fun<DOUT> f;
    f.X = &X;
    f.Y = &Y;
    f.alphabet = &alphabet;
    BP::stop_maxiterations::set_iterations(b0);
    bo.optimize(f, First());
    all(bo, X, Y);
    BP::stop_maxiterations::set_iterations(b1);
    if (reset) {
        X.clear();
        Y.clear();
    }
    bo.optimize(f, Neg(), reset);
    all(bo, X, Y);
}
MC_SUITE("runs_scalar", [] { runs<1>(scalars(), mc::tier(4, 5)); }, 16);
MC_SUITE("runs_vector", [] { runs<2>(VECTORS, mc::tier(4, 5)); }, 16);
MC_MAIN
