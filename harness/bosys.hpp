// The real BOptimizer with every seam (function, initialiser, inner optimiser, acquisition, statistic,
// hyper-parameter strategy) replaced by a monitor that checks the protocol and explores the answers.
#ifndef VERIF_BOSYS_HPP
#define VERIF_BOSYS_HPP
#include "mc.hpp"
#include "ref.hpp"
#include "zoo.hpp"
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/model/gp.hpp>
using Eigen::VectorXd;
struct BP {
    struct bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
        BO_DYN_PARAM(bool, bounded);
    };
    struct bayes_opt_boptimizer {
        BO_DYN_PARAM(int, hp_period);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.7);
        BO_PARAM(double, l, 0.6);
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 2);
    };
};
BO_DECLARE_DYN_PARAM(bool, BP::bayes_opt_bobase, bounded);
BO_DECLARE_DYN_PARAM(int, BP::bayes_opt_boptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, BP::stop_maxiterations, iterations);

struct Boom : std::exception {
    const char* what() const noexcept { return "user error"; }
};
enum Fault { OK, THROW_EVAL, THROW_OTHER, NAN_, PINF, NINF };
struct World {
    int din, dout;
    // the record so far (since the last reset) and in total
    std::vector<VectorXd> X, Y;
    bool initialised = false;
    int total = 0;
    // current call
    int n_init = 0, inits = 0, iter = 0, asks = 0, hp_calls = 0, stats = 0, acquis = 0, evals_init = 0, evals_loop = 0, stop_checks = 0;
    bool in_init = false, asked = false;
    VectorXd answer;
    VectorXd hp; // kernel parameters expected in the model
    int afun_id = 0;
    // exploration
    int points = 3;       // answers of the inner optimiser
    int fixed_answers = -1; // >= 0: no choice
    std::function<VectorXd(int)> value; // observation of evaluation k
    std::function<Fault()> fault;
    int evaluations = 0; // over the whole history
    std::function<void()> check_model;
    std::function<void(const std::vector<VectorXd>&, const std::vector<VectorXd>&)> nothing;
    std::function<const std::vector<VectorXd>&()> samples, observations;
    std::function<int()> current, total_it;
    // called at the first sign that the previous iteration is over
    void end_iteration()
    {
        if (asks <= iter)
            return;
        mc::check(!asked, "decision-not-evaluated");
        mc::check(asks == iter + 1 && acquis >= asks, "one-decision-per-iteration");
        mc::check(evals_loop == iter + 1, "one-evaluation-per-iteration");
        mc::check(stats == iter + 1, "statistics-per-iteration", mc::fmt("statistics written %d times after %d iterations", stats, iter + 1));
        iter++;
        int p = BP::bayes_opt_boptimizer::hp_period();
        mc::check(hp_calls == (p > 0 ? iter / p : 0), "hyper-parameter-period", mc::fmt("%d optimisations after %d iterations, period %d", hp_calls, iter, p));
    }
    void record(const char* where)
    {
        auto& s = samples();
        auto& o = observations();
        mc::check(s.size() == X.size() && o.size() == Y.size(), "record-size", mc::fmt("%s: %zu samples, %zu observations recorded, %zu evaluated", where, s.size(), o.size(), X.size()));
        for (size_t i = 0; i < X.size(); ++i)
            mc::check(s[i] == X[i] && o[i] == Y[i], "record", mc::fmt("%s: entry %zu is (%s, %s), evaluated (%s, %s)", where, i, zoo::str(s[i]).c_str(), zoo::str(o[i]).c_str(), zoo::str(X[i]).c_str(), zoo::str(Y[i]).c_str()));
    }
};
static World* W;

template <int DIN, int DOUT>
struct Fun {
    BO_PARAM(size_t, dim_in, DIN);
    BO_PARAM(size_t, dim_out, DOUT);
    VectorXd operator()(const VectorXd& x) const
    {
        World& w = *W;
        mc::op();
        mc::check(x.size() == DIN, "argument-dimension");
        mc::check(!limbo::tools::is_nan_or_inf(x), "argument-finite");
        w.record("when the function is called");
        if (w.in_init)
            w.evals_init++;
        else {
            mc::check(w.asked, "evaluation-without-decision", "the function is evaluated at a point the inner optimiser did not choose");
            mc::check(x == w.answer, "evaluated-point", mc::fmt("%s evaluated, the inner optimiser returned %s", zoo::str(x).c_str(), zoo::str(w.answer).c_str()));
            w.asked = false;
            w.evals_loop++;
        }
        VectorXd y = w.value(w.evaluations++);
        Fault f = w.fault ? w.fault() : OK;
        if (f != OK)
            mc::note(mc::fmt("evaluation %d fails (%d)", w.evaluations - 1, (int)f));
        switch (f) {
        case THROW_EVAL: throw limbo::EvaluationError();
        case THROW_OTHER: throw Boom();
        case NAN_: y[y.size() - 1] = NAN; break;
        case PINF: y[0] = INFINITY; break;
        case NINF: y[y.size() - 1] = -INFINITY; break;
        case OK:
            w.X.push_back(x);
            w.Y.push_back(y);
        }
        return y;
    }
};
struct Agg { // the user's aggregation function, recognisable
    int id = 7;
    double k = 1;
    double operator()(const VectorXd& y) const
    {
        if (W)
            mc::check(id == W->afun_id, "aggregation-function", "another aggregation function than the user's is used");
        double s = 0;
        for (int i = 0; i < y.size(); ++i)
            s += y[i] * (i + 1);
        return k * s;
    }
};
struct Init {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A& a, O& opt) const
    {
        World& w = *W;
        w.inits++;
        w.in_init = true;
        for (int i = 0; i < w.n_init; ++i) {
            VectorXd x = zoo::point(i % 3, w.din).cwiseAbs().cwiseMin(1.0);
            opt.eval_and_add(f, x);
        }
        w.in_init = false;
    }
};
struct InnerOpt {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        World& w = *W;
        mc::check(init.size() == w.din && !limbo::tools::is_nan_or_inf(init), "starting-point");
        mc::check(bounded == BP::bayes_opt_bobase::bounded(), "bounded-flag");
        if (bounded)
            mc::check(init.minCoeff() >= 0 && init.maxCoeff() <= 1, "starting-point-in-domain");
        w.asks++;
        w.record("when the next point is chosen");
        w.check_model();
        int n = w.fixed_answers >= 0 ? (w.fixed_answers + w.iter) % w.points : mc::choose(w.points);
        VectorXd p = zoo::point(2 + n, w.din).cwiseAbs().cwiseMin(1.0);
        f(p, false);
        f(init, false);
        w.answer = p;
        w.asked = true;
        return p;
    }
};
template <typename Pm, typename Model>
struct Acq {
    const Model& m;
    limbo::acqui::UCB<Pm, Model> ucb;
    Acq(const Model& model, int iteration) : m(model), ucb(model, iteration)
    {
        W->end_iteration();
        W->acquis++;
        mc::check(iteration == W->iter, "iteration-number", mc::fmt("acquisition function told iteration %d in iteration %d", iteration, W->iter));
    }
    size_t dim_in() const { return m.dim_in(); }
    size_t dim_out() const { return m.dim_out(); }
    template <typename A>
    limbo::opt::eval_t operator()(const VectorXd& v, const A& afun, bool g) const
    {
        afun(VectorXd::Ones(W->dout));
        mc::check(m.samples() == W->X && m.observations() == W->Y, "acquisition-model-data", mc::fmt("model with %d points, %zu evaluated", m.nb_samples(), W->X.size()));
        return ucb(v, afun, g);
    }
};
struct HP {
    template <typename GP>
    void operator()(GP& gp)
    {
        World& w = *W;
        w.hp_calls++;
        mc::check(gp.samples() == w.X && gp.observations() == w.Y, "hyper-parameters-on-stale-model", "hyper-parameters are optimised on a model that misses evaluations");
        w.hp = zoo::params(w.hp_calls + w.iter, gp.kernel_function().h_params_size());
        gp.kernel_function().set_h_params(w.hp);
        gp.recompute(false);
    }
};
struct Stat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        World& w = *W;
        w.stats++;
        afun(VectorXd::Ones(w.dout));
        w.record("when statistics are written");
        mc::check(w.evals_loop == w.iter + 1, "statistics-before-evaluation");
        mc::check(bo.current_iteration() == w.iter, "current-iteration", mc::fmt("%d in iteration %d", bo.current_iteration(), w.iter));
        mc::check(bo.total_iterations() == w.total + w.iter, "total-iterations", mc::fmt("%d after %d iterations", bo.total_iterations(), w.total + w.iter));
    }
};
// evaluated before every iteration
struct StopMonitor {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A& afun)
    {
        World& w = *W;
        afun(VectorXd::Ones(w.dout));
        w.end_iteration();
        w.stop_checks++;
        mc::check(bo.current_iteration() == w.iter, "current-iteration", mc::fmt("%d after %d iterations", bo.current_iteration(), w.iter));
        w.record("when the stopping criteria are checked");
        w.check_model();
        return false;
    }
};
template <int DIN, int DOUT, typename StopSeq = boost::fusion::vector<StopMonitor, limbo::stop::MaxIterations<BP>>>
struct BOSys {
    typedef limbo::kernel::Exp<BP> K;
    typedef limbo::mean::Data<BP> M;
    typedef limbo::model::GP<BP, K, M, HP> Model;
    typedef limbo::bayes_opt::BOptimizer<BP, limbo::modelfun<Model>, limbo::initfun<Init>, limbo::acquifun<Acq<BP, Model>>, limbo::acquiopt<InnerOpt>, limbo::statsfun<Stat>, limbo::stopcrit<StopSeq>> BO;
    typedef Fun<DIN, DOUT> F;
    World w;
    BO bo;
    F fun;
    Agg agg;
    ref::GP r;
    std::function<void(bool)> go;
    // from now on the same optimiser works on a function of other dimensions (the next call must reset)
    template <int A, int B>
    void become()
    {
        w.din = A;
        w.dout = B;
        r.X.clear();
        r.Y.clear();
        r.dims(A, B);
        r.dirty = true;
        go = [this](bool reset) { bo.optimize(Fun<A, B>(), agg, reset); };
    }
    BOSys()
    {
        W = &w;
        w.din = DIN;
        w.dout = DOUT;
        w.afun_id = agg.id;
        w.samples = [this]() -> const std::vector<VectorXd>& { return bo.samples(); };
        w.observations = [this]() -> const std::vector<VectorXd>& { return bo.observations(); };
        w.current = [this] { return bo.current_iteration(); };
        w.total_it = [this] { return bo.total_iterations(); };
        w.check_model = [this] { model(); };
        w.value = [this](int k) { return zoo::obs(k, w.dout); };
        go = [this](bool reset) { bo.optimize(fun, agg, reset); };
        r.kern.noise0 = 0.02;
        r.kern.t = ref::EXP;
        r.kern.sf0 = 1.7;
        r.kern.l0 = 0.6;
        r.mean.t = ref::DATA;
        r.dims(DIN, DOUT);
    }
    ~BOSys() { W = nullptr; }
    // the model is the exact posterior on the record
    void model()
    {
        const Model& m = bo.model();
        mc::check(m.nb_samples() == (int)w.X.size(), "model-size", mc::fmt("model with %d points, %zu evaluated", m.nb_samples(), w.X.size()));
        mc::check(m.samples() == w.X, "model-samples");
        if (!w.X.empty())
            mc::check(m.observations() == w.Y, "model-observations");
        mc::check(m.dim_in() == w.din && m.dim_out() == w.dout, "model-dimensions");
        VectorXd hp = m.kernel_function().h_params();
        if (w.hp.size())
            mc::check((hp - w.hp).cwiseAbs().maxCoeff() < 1e-12, "model-hyper-parameters", "the model does not use the hyper-parameters optimised last");
        if (r.X.size() != w.X.size() || r.Y != w.Y || zoo::stdv(hp) != r.kern.hp || r.X != w.X) {
            r.X = w.X;
            r.Y = w.Y;
            r.kern.hp = zoo::stdv(hp);
            r.dirty = true;
        }
        double scale = 10;
        for (auto& y : w.Y)
            scale = std::max(scale, y.cwiseAbs().maxCoeff());
        for (double q : {0.3, 0.9}) {
            VectorXd v = VectorXd::Constant(w.din, q), g = m.mu(v);
            ref::Vec e = r.mu(v);
            for (int i = 0; i < w.dout; ++i)
                mc::check(zoo::close(g[i], e[i], 1e-6 * scale), "model-mu", mc::fmt("%.12g expected %.12Lg", g[i], e[i]));
            mc::check(zoo::close(m.sigma(v), r.var(v), 1e-6), "model-sigma");
        }
    }
    void begin(bool reset)
    {
        w.inits = w.iter = w.asks = w.hp_calls = w.stats = w.acquis = w.evals_init = w.evals_loop = w.stop_checks = 0;
        w.in_init = w.asked = false;
        if (reset) {
            w.X.clear();
            w.Y.clear();
            w.initialised = false;
            w.total = 0;
        }
        w.hp.resize(0); // whatever they are at the beginning of the call
    }
    void run(bool reset, int budget, int n_init)
    {
        mc::note(mc::fmt("optimize(%s, %d iterations, %d initial points)", reset ? "reset" : "resume", budget, n_init));
        BP::stop_maxiterations::set_iterations(budget);
        w.n_init = n_init;
        bool fresh = reset || !w.initialised;
        begin(reset);
        go(reset);
        mc::op();
        w.end_iteration();
        mc::check(w.inits == (fresh ? 1 : 0), "initialisation-count", mc::fmt("initialiser run %d times, expected %d", w.inits, fresh ? 1 : 0));
        w.initialised = true;
        mc::check(w.evals_init == (fresh ? n_init : 0), "initial-evaluations");
        mc::check(w.evals_loop == budget, "loop-evaluations", mc::fmt("%d evaluations in %d iterations", w.evals_loop, budget));
        mc::check(w.iter == budget && w.stats == budget && w.asks == budget, "iterations");
        mc::check(w.stop_checks >= budget + 1, "stopping-criteria-consulted", mc::fmt("%d times in %d iterations", w.stop_checks, budget));
        w.total += budget;
        done();
        mc::check(bo.current_iteration() == budget, "current-iteration", mc::fmt("%d after a run of %d", bo.current_iteration(), budget));
    }
    void done()
    {
        w.record("after the run");
        model();
        mc::check(bo.total_iterations() == w.total, "total-iterations", mc::fmt("%d after %d", bo.total_iterations(), w.total));
        best();
        mc::state(hash());
    }
    void best()
    {
        if (w.X.empty())
            return;
        double mx = -INFINITY;
        for (auto& y : w.Y)
            mx = std::max(mx, agg(y));
        const VectorXd &bs = bo.best_sample(agg), &bob = bo.best_observation(agg);
        bool pair = false;
        for (size_t i = 0; i < w.X.size(); ++i)
            pair |= w.X[i] == bs && w.Y[i] == bob;
        mc::check(pair, "best-is-a-recorded-pair");
        mc::check(agg(bob) == mx, "best-is-maximal", mc::fmt("%.17g, the record has %.17g", agg(bob), mx));
    }
    uint64_t hash() const
    {
        uint64_t h = mc::hash_str("bo");
        for (auto& x : w.X)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        for (auto& x : w.Y)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        return h * 31 + w.total * 2 + w.initialised;
    }
};
#endif
