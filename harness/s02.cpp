// S02: stopping criteria.  The number of iterations of every run is compared with what the criteria said (or,
// for the provided criteria, with what their definition says on an exact posterior) at every check.
#include "mc.hpp"
#include "ref.hpp"
#include "zoo.hpp"
#include <iostream>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#include <limbo/stop/max_iterations.hpp>
#include <limbo/stop/max_predicted_value.hpp>
using Eigen::VectorXd;
struct SP {
    struct bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
        BO_DYN_PARAM(bool, bounded);
    };
    struct bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct stop_maxpredictedvalue {
        BO_DYN_PARAM(double, ratio);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.7);
        BO_PARAM(double, l, 0.3);
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0.7);
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 2);
    };
    struct opt_gridsearch {
        BO_PARAM(int, bins, 8);
    };
    struct opt_nloptnograd {
        BO_PARAM(int, iterations, 400);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
};
BO_DECLARE_DYN_PARAM(bool, SP::bayes_opt_bobase, bounded);
BO_DECLARE_DYN_PARAM(int, SP::stop_maxiterations, iterations);
BO_DECLARE_DYN_PARAM(double, SP::stop_maxpredictedvalue, ratio);
static const int GRID = 8;

struct World {
    int din = 1, dout = 1, n_init = 0, evals = 0, iter = 0;
    // scripted criteria
    int ncrit = 0, bound = 0, agg_id = 3;
    std::map<int, std::map<int, bool>> said; // iteration -> criterion -> answer
    // observations
    std::function<VectorXd(int)> value;
    std::vector<VectorXd> X, Y;
};
static World* W;
struct Agg {
    int id = 3;
    double w = -0.5, k = 1;
    double operator()(const VectorXd& y) const
    {
        if (W)
            mc::check(id == W->agg_id, "aggregation-function");
        double s = y[0];
        for (int i = 1; i < y.size(); ++i)
            s += w * y[i];
        return k * s;
    }
};
template <int DIN, int DOUT>
struct Fun {
    BO_PARAM(size_t, dim_in, DIN);
    BO_PARAM(size_t, dim_out, DOUT);
    VectorXd operator()(const VectorXd& x) const
    {
        World& w = *W;
        VectorXd y = w.value(w.evals++);
        w.X.push_back(x);
        w.Y.push_back(y);
        if (w.evals > w.n_init)
            w.iter++;
        mc::op();
        return y;
    }
};
struct Init {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& opt) const
    {
        for (int i = 0; i < W->n_init; ++i)
            opt.eval_and_add(f, VectorXd::Constant(W->din, 0.25 + 0.5 * i));
    }
};
struct Inner {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd&, bool) const
    {
        return zoo::point(W->evals * 3 + 2, W->din).cwiseAbs().cwiseMin(1.0);
    }
};
template <int I>
struct Scripted {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A& afun) const
    {
        World& w = *W;
        mc::check(bo.current_iteration() == w.iter, "current-iteration");
        mc::check(bo.samples() == w.X, "record-at-check");
        afun(VectorXd::Ones(w.dout));
        auto& s = w.said[w.iter];
        if (!s.count(I)) // asked twice in one check: the same answer
            s[I] = w.iter >= w.bound ? true : mc::flip();
        return s[I];
    }
};
struct Null : std::streambuf {
    int overflow(int c) { return c; }
};
static void quiet()
{
    static Null n;
    std::cout.rdbuf(&n);
}
typedef limbo::model::GP<SP, limbo::kernel::Exp<SP>, limbo::mean::Data<SP>> Model;
template <typename Stop, typename Opt = Inner, typename Mdl = Model>
using BOT = limbo::bayes_opt::BOptimizer<SP, limbo::modelfun<Mdl>, limbo::initfun<Init>, limbo::acquifun<limbo::acqui::UCB<SP, Mdl>>, limbo::acquiopt<Opt>, limbo::statsfun<boost::fusion::vector<>>, limbo::stopcrit<Stop>>;
typedef limbo::stop::MaxIterations<SP> MaxIt;
// any number of criteria, in any order, by disjunction
template <typename Stop>
static void scripted(std::vector<int> ids, bool maxit, int bound)
{
    quiet();
    World w;
    W = &w;
    SP::bayes_opt_bobase::set_bounded(true);
    w.bound = bound;
    w.value = [](int k) { return zoo::obs(k, 1); };
    int limit = maxit ? mc::choose(bound + 2) : 1000;
    SP::stop_maxiterations::set_iterations(limit);
    w.n_init = mc::choose(2);
    BOT<Stop> bo;
    for (int call = 0; call < 2; ++call) {
        w.iter = 0;
        w.said.clear();
        if (call == 0) {
            w.evals = 0;
            bo.optimize(Fun<1, 1>(), Agg());
        }
        else {
            bool reset = mc::flip();
            if (reset) {
                w.X.clear();
                w.Y.clear();
                w.evals = 0;
            }
            bo.optimize(Fun<1, 1>(), Agg(), reset);
        }
        mc::note(mc::fmt("run %d: %d iterations", call, w.iter));
        for (int k = 0; k <= w.iter; ++k) {
            bool any = maxit && k >= limit;
            for (auto& a : w.said[k])
                any |= a.second;
            if (k < w.iter) {
                mc::check(!any, "missed-stop", mc::fmt("a criterion held at iteration %d and the run went on to %d", k, w.iter));
                for (int i : ids)
                    mc::check(w.said[k].count(i), "criterion-not-consulted", mc::fmt("criterion %d not consulted before iteration %d", i, k));
            }
            else
                mc::check(any, "early-stop", mc::fmt("the run stopped after %d iterations though no criterion held", k));
        }
        mc::check(bo.samples() == w.X, "record");
        mc::state(mc::hash_str(mc::fmt("%d %d %zu %d", call, w.iter, w.X.size(), limit)));
    }
    W = nullptr;
}
using boost::fusion::vector;
MC_SUITE("one", [] { scripted<Scripted<0>>({0}, false, mc::tier(6, 10)); });
MC_SUITE("one_vector", [] { scripted<vector<Scripted<0>>>({0}, false, mc::tier(6, 10)); });
MC_SUITE("two", [] { scripted<vector<Scripted<0>, Scripted<1>>>({0, 1}, false, mc::tier(5, 6)); });
MC_SUITE("three", [] { scripted<vector<Scripted<0>, Scripted<1>, Scripted<2>>>({0, 1, 2}, false, mc::tier(4, 5)); });
MC_SUITE("four", [] { scripted<vector<Scripted<0>, Scripted<1>, Scripted<2>, Scripted<3>>>({0, 1, 2, 3}, false, mc::tier(3, 4)); });
MC_SUITE("limit_first", [] { scripted<vector<MaxIt, Scripted<0>>>({0}, true, mc::tier(5, 7)); });
MC_SUITE("limit_middle", [] { scripted<vector<Scripted<0>, MaxIt, Scripted<1>>>({0, 1}, true, mc::tier(4, 5)); });
MC_SUITE("limit_last", [] { scripted<vector<Scripted<0>, Scripted<1>, MaxIt>>({0, 1}, true, mc::tier(4, 5)); });
// the iteration limit alone, over several calls
template <typename BO>
static void limits()
{
    quiet();
    World w;
    W = &w;
    SP::bayes_opt_bobase::set_bounded(mc::flip());
    w.value = [](int k) { return zoo::obs(k, 1); };
    BO bo;
    int n = 1 + mc::choose(mc::tier(3, 4));
    for (int c = 0; c < n; ++c) {
        int limit = mc::choose(c ? 4 : 9);
        bool reset = c == 0 || mc::flip();
        SP::stop_maxiterations::set_iterations(limit);
        if (reset) {
            w.n_init = mc::choose(3);
            w.evals = 0;
            w.X.clear();
        }
        w.iter = 0;
        bo.optimize(Fun<1, 1>(), Agg(), reset);
        mc::check(w.iter == limit, "iteration-limit", mc::fmt("%d iterations, the limit is %d", w.iter, limit));
        mc::state(mc::hash_str(mc::fmt("%d %d %zu", c, limit, w.X.size())));
    }
    W = nullptr;
}
MC_SUITE("limit", [] { limits<BOT<MaxIt>>(); });
MC_SUITE("limit_vector", [] { limits<BOT<vector<MaxIt>>>(); });
MC_SUITE("limit_default", [] { limits<limbo::bayes_opt::BOptimizer<SP, limbo::modelfun<Model>, limbo::initfun<Init>, limbo::acquifun<limbo::acqui::UCB<SP, Model>>, limbo::acquiopt<Inner>, limbo::statsfun<vector<>>>>(); });

// --- the predicted-value criterion ---
struct GridMax { // exact maximiser over the grid {0, 1/GRID, ... 1}^d
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool) const
    {
        int d = init.size(), n = 1;
        for (int i = 0; i < d; ++i)
            n *= GRID + 1;
        VectorXd best;
        double bv = -INFINITY;
        for (int i = 0; i < n; ++i) {
            VectorXd x(d);
            for (int k = 0, r = i; k < d; ++k, r /= GRID + 1)
                x[k] = (r % (GRID + 1)) / (double)GRID;
            double v = limbo::opt::eval(f, x);
            if (v > bv) {
                bv = v;
                best = x;
            }
        }
        return best;
    }
};
static double slack = 1e-6;
// what the definition says at each check
struct Oracle {
    ref::GP r;
    bool limit_reached(int iter) const { return iter >= SP::stop_maxiterations::iterations(); }
    // 1: must stop, 0: must not, -1: too close to tell
    template <typename A>
    int predicted(const std::vector<VectorXd>& X, const std::vector<VectorXd>& Y, const A& agg)
    {
        if (X.empty())
            return 0;
        r.X = X;
        r.Y = Y;
        r.dirty = true;
        int d = W->din, n = 1;
        for (int i = 0; i < d; ++i)
            n *= GRID + 1;
        double mx = -INFINITY, best = -INFINITY;
        for (int i = 0; i < n; ++i) {
            VectorXd x(d);
            for (int k = 0, q = i; k < d; ++k, q /= GRID + 1)
                x[k] = (q % (GRID + 1)) / (double)GRID;
            VectorXd mu = r.mu(x).cast<double>();
            mx = std::max(mx, agg(mu));
        }
        for (auto& y : Y)
            best = std::max(best, agg(y));
        double t = SP::stop_maxpredictedvalue::ratio() * mx;
        if (std::fabs(best - t) <= slack * (1 + std::fabs(t)))
            return -1;
        return best > t;
    }
};
struct Probe { // sees every check; never stops
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A& afun) const
    {
        mc::check(bo.current_iteration() == W->iter, "current-iteration");
        W->said[W->iter][0] = true;
        return false;
    }
};
template <typename Stop, typename Opt, int DIN, int DOUT>
static void predicted(int limit, bool has_limit, const std::vector<double>& ratios, int alphabet)
{
    quiet();
    World w;
    W = &w;
    SP::bayes_opt_bobase::set_bounded(true);
    w.din = DIN;
    w.dout = DOUT;
    SP::stop_maxpredictedvalue::set_ratio(mc::pick(ratios));
    SP::stop_maxiterations::set_iterations(limit);
    w.n_init = mc::choose(3);
    mc::shard();
    double gap = 0;
    w.value = [&](int k) {
        static const double v[6] = {1, -1.5, 3, 0.02, 2.9, -0.3};
        int c = mc::choose(alphabet);
        mc::note(mc::fmt("y%d=%g", k, v[c]));
        VectorXd y(DOUT);
        for (int i = 0; i < DOUT; ++i)
            y[i] = v[(c + 2 * i) % 6];
        return y;
    };
    Oracle o;
    o.r.kern.noise0 = 0.02;
    o.r.kern.t = ref::EXP;
    o.r.kern.sf0 = 1.7;
    o.r.kern.l0 = 0.3;
    o.r.mean.t = ref::DATA;
    o.r.dims(DIN, DOUT);
    Agg agg;
    BOT<Stop, Opt> bo;
    size_t n0 = 0;
    for (int call = 0; call < 2; ++call) {
        w.iter = 0;
        if (call) {
            limit = mc::tier(1, 2);
            SP::stop_maxiterations::set_iterations(limit);
        }
        bo.optimize(Fun<DIN, DOUT>(), agg, call == 0);
        n0 = call == 0 ? w.n_init : n0;
        mc::note(mc::fmt("stopped after %d iterations", w.iter));
        // replay the checks
        for (int k = 0; k <= w.iter; ++k) {
            size_t n = n0 + k;
            std::vector<VectorXd> X(w.X.begin(), w.X.begin() + n), Y(w.Y.begin(), w.Y.begin() + n);
            bool lim = k >= limit;
            int p = o.predicted(X, Y, agg);
            if (p < 0)
                mc::count("borderline_checks");
            if (k < w.iter)
                mc::check(!lim && p != 1, "missed-stop", mc::fmt("with %zu points a criterion held (%s) and the run went on", n, lim ? "iteration limit" : "predicted value"));
            else
                mc::check(lim || p != 0, "early-stop", mc::fmt("stopped with %zu points though the best observation is below the predicted maximum", n));
        }
        n0 += w.iter;
        uint64_t h = mc::hash_str("s02");
        for (auto& y : w.Y)
            h = mc::hash_bytes(y.data(), 8 * y.size(), h);
        mc::state(h);
    }
    W = nullptr;
}
typedef limbo::stop::MaxPredictedValue<SP, GridMax> Pred; // own optimiser
typedef limbo::stop::MaxPredictedValue<SP> PredBO; // the optimiser of the acquisition function
typedef limbo::stop::MaxPredictedValue<SP, limbo::opt::GridSearch<SP>> PredGrid;
typedef limbo::opt::GridSearch<SP> Grid;
static const std::vector<double> R = {0.9, 0.5, 1.05, 0.0, -0.5};
MC_SUITE("predicted", [] { slack = 1e-6; predicted<vector<Pred, MaxIt>, Inner, 1, 1>(mc::tier(4, 5), true, R, mc::tier(4, 5)); }, 16);
MC_SUITE("predicted_last", [] { slack = 1e-6; predicted<vector<MaxIt, Pred>, Inner, 1, 1>(mc::tier(4, 5), true, R, 4); }, 16);
MC_SUITE("predicted_middle", [] { slack = 1e-6; predicted<vector<MaxIt, Pred, MaxIt>, Inner, 1, 2>(mc::tier(3, 4), true, R, 4); }, 16);
MC_SUITE("predicted_2d", [] { slack = 1e-6; predicted<vector<MaxIt, Pred>, Inner, 2, 2>(mc::tier(3, 4), true, R, 4); }, 16);
MC_SUITE("predicted_default_optimiser", [] { slack = 1e-6; predicted<vector<MaxIt, PredBO>, GridMax, 1, 1>(mc::tier(4, 5), true, R, 3); }, 16);
MC_SUITE("predicted_grid_search", [] { slack = 1e-6; predicted<vector<MaxIt, PredGrid>, Inner, 1, 1>(mc::tier(3, 4), true, R, 4); }, 16);
MC_SUITE("predicted_grid_search_bo", [] { slack = 1e-6; predicted<vector<PredBO, MaxIt>, Grid, 2, 1>(mc::tier(3, 4), true, R, 3); }, 16);
MC_MAIN
