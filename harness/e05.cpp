// E05: multi-objective optimisation: the Pareto record, the models, the point chosen, the scalarised model, the statistics.
#include "mc.hpp"
#include "ref.hpp"
#include "zoo.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/stat/pareto_benchmark.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#include <limbo/init/no_init.hpp>
#include "rng.hpp"
#include <boost/filesystem.hpp>
using Eigen::VectorXd;
typedef std::vector<VectorXd> Vs;
typedef long double LD;
namespace lex = limbo::experimental;
struct EP {
    struct bayes_opt_bobase {
        BO_DYN_PARAM(bool, stats_enabled);
        BO_PARAM(bool, bounded, true);
    };
    struct bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct bayes_opt_ehvi {
        VDYN(double, x_ref)
        VDYN(double, y_ref)
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.7);
        BO_PARAM(double, l, 0.6);
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct model_gp_parego {
        VDYN(double, rho)
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 2);
    };
    struct opt_nloptnograd : limbo::defaults::opt_nloptnograd {
    };
};
BO_DECLARE_DYN_PARAM(bool, EP::bayes_opt_bobase, stats_enabled);
BO_DECLARE_DYN_PARAM(int, EP::stop_maxiterations, iterations);
typedef limbo::model::GP<EP, limbo::kernel::Exp<EP>, limbo::mean::Data<EP>> G;

static std::string show(const Vs& v)
{
    std::string s;
    for (auto& x : v)
        s += zoo::str(x);
    return s;
}
static bool same(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && a == b; }
static bool same(const Vs& a, const Vs& b)
{
    bool r = a.size() == b.size();
    for (size_t i = 0; r && i < a.size(); ++i)
        r = same(a[i], b[i]);
    return r;
}
static bool dominates(const VectorXd& a, const VectorXd& b) { return (a.array() >= b.array()).all() && (a.array() > b.array()).any(); }
static std::vector<int> nondominated(const Vs& Y)
{
    std::vector<int> r;
    for (size_t i = 0; i < Y.size(); ++i) {
        bool dom = false;
        for (auto& y : Y)
            dom = dom || dominates(y, Y[i]);
        if (!dom)
            r.push_back(i);
    }
    return r;
}
static uint64_t key(const Vs& X, const Vs& Y)
{
    uint64_t h = mc::hash_str("e05");
    for (auto& x : X)
        h = mc::hash_bytes(x.data(), 8 * x.size(), h);
    for (auto& x : Y)
        h = mc::hash_bytes(x.data(), 8 * x.size(), h);
    return h;
}
// the set of (point, objectives) must be that of the non-dominated pairs of the record, copies included
template <typename Set>
void pareto_is(const Set& set, const Vs& X, const Vs& Y, const char* where)
{
    std::vector<int> nd = nondominated(Y);
    std::vector<bool> used(nd.size(), false);
    for (auto& p : set) {
        bool found = false;
        for (size_t k = 0; k < nd.size() && !found; ++k)
            if (!used[k] && same(std::get<0>(p), X[nd[k]]) && same(std::get<1>(p), Y[nd[k]])) {
                used[k] = true;
                found = true;
            }
        mc::check(found, mc::fmt("%s-not-a-non-dominated-pair", where), mc::fmt("(%s, %s) in samples %s observations %s", zoo::str(std::get<0>(p)).c_str(), zoo::str(std::get<1>(p)).c_str(), show(X).c_str(), show(Y).c_str()));
    }
    mc::check(set.size() == nd.size(), mc::fmt("%s-misses-a-non-dominated-pair", where), mc::fmt("%zu of %zu points in samples %s observations %s", set.size(), nd.size(), show(X).c_str(), show(Y).c_str()));
}
template <typename Ms>
void models(const Ms& ms, const Vs& X, const Vs& Y, const char* where)
{
    mc::check((int)ms.size() == (int)Y[0].size(), mc::fmt("%s-one-model-per-objective", where), mc::fmt("%zu models, %d objectives", ms.size(), (int)Y[0].size()));
    for (size_t k = 0; k < ms.size(); ++k) {
        Vs y;
        for (auto& v : Y)
            y.push_back(VectorXd::Constant(1, v[k]));
        mc::check(same(ms[k].samples(), X), mc::fmt("%s-model-samples", where), mc::fmt("objective %zu: %s, evaluated %s", k, show(ms[k].samples()).c_str(), show(X).c_str()));
        mc::check(same(ms[k].observations(), y), mc::fmt("%s-model-observations", where), mc::fmt("objective %zu: %s, observed %s", k, show(ms[k].observations()).c_str(), show(y).c_str()));
        mc::check((int)ms[k].dim_in() == (int)X[0].size() && ms[k].dim_out() == 1, mc::fmt("%s-model-dimensions", where));
    }
}
#if PART == 0
// ---------------------------------------------------------------- the record, directly
typedef lex::bayes_opt::BoMulti<EP, limbo::modelfun<G>, limbo::statsfun<boost::fusion::vector<>>> Multi;
static void record(int d, int n, const std::vector<double>& val, bool same_points)
{
    EP::bayes_opt_bobase::set_stats_enabled(false);
    Multi m;
    Vs X, Y;
    for (int i = 0; i < n; ++i) {
        VectorXd y(d);
        for (int k = 0; k < d; ++k)
            y[k] = mc::pick(val);
        if (i == 0)
            mc::shard();
        X.push_back(VectorXd::Constant(1, same_points ? (i % 2) / 2. : i / 16.));
        Y.push_back(y);
        m.add_new_sample(X.back(), Y.back());
        if (!mc::fresh())
            continue;
        m.update_pareto_data();
        m.update_pareto_model<1>();
        pareto_is(m.pareto_data(), X, Y, "record");
        models(m.models(), X, Y, "record");
        mc::check((int)m.nb_objs() == d, "number-of-objectives");
        mc::op();
        mc::state(key(X, Y));
    }
}
MC_SUITE("record_2", [] { record(2, mc::tier(4, 5), {-1, 0, 2}, false); }, 8);
MC_SUITE("record_3", [] { record(3, mc::tier(4, 5), {-1, 2}, false); }, 8);
MC_SUITE("record_4", [] { record(4, mc::tier(3, 4), {-1, 2}, false); }, 8);
MC_SUITE("record_same_points", [] { record(2, mc::tier(4, 5), {-1, 2}, true); }, 4);
// ---------------------------------------------------------------- EHVI runs
// E[(y - c)+], and the expected hypervolume improvement as in E03
static LD ei(LD c, LD mu, LD s)
{
    LD z = (mu - c) / s;
    return s * std::exp(-z * z / 2) / std::sqrt(2 * acosl(-1.0L)) + (mu - c) * 0.5L * erfcl(-z / sqrtl(2.0L));
}
static LD ehvi(const Vs& p, double r0, double r1, const LD* mu, const LD* s)
{
    std::vector<double> cut = {r0};
    for (auto& q : p)
        if (q[0] > r0)
            cut.push_back(q[0]);
    std::sort(cut.begin(), cut.end());
    LD total = 0;
    for (size_t i = 0; i < cut.size(); ++i) {
        bool last = i + 1 == cut.size();
        if (!last && cut[i + 1] == cut[i])
            continue;
        double h = r1;
        for (auto& q : p)
            if (q[0] > cut[i])
                h = std::max(h, q[1]);
        total += (ei(cut[i], mu[0], s[0]) - (last ? 0 : ei(cut[i + 1], mu[0], s[0]))) * ei(h, mu[1], s[1]);
    }
    return total;
}
struct Run {
    Vs X, Y;
    int n_init = 0, inits = 0, iter = 0, evals = 0, stats = 0, calls = 0;
    bool in_init = false;
    Vs starts, answers;
    std::vector<double> values;
    std::function<VectorXd(int)> value;
    std::function<void()> at_decision;
    std::function<const Vs&()> samples, observations;
    int points = 3;
    int fail_at = -1;
    void rec(const char* where)
    {
        mc::check(same(samples(), X) && same(observations(), Y), "record", where);
    }
};
static Run* R;
struct Init {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& opt) const
    {
        R->inits++;
        R->in_init = true;
        for (int i = 0; i < R->n_init; ++i)
            opt.eval_and_add(f, VectorXd::Constant(F::dim_in(), (2 * i + 1) / 16.));
        R->in_init = false;
    }
};
template <int DIN>
struct Fun {
    BO_PARAM(size_t, dim_in, DIN);
    BO_PARAM(size_t, dim_out, 2);
    VectorXd operator()(const VectorXd& x) const
    {
        Run& w = *R;
        mc::op();
        mc::check(x.size() == DIN && x.minCoeff() >= 0 && x.maxCoeff() <= 1, "argument-in-domain", zoo::str(x));
        w.rec("when the function is called");
        if (!w.in_init) {
            if (!w.X.empty()) {
                // one inner optimisation from every point of the Pareto set; the best answer is evaluated
                std::vector<int> nd = nondominated(w.Y);
                mc::check(w.starts.size() == nd.size(), "one-search-per-pareto-point", mc::fmt("%zu searches, %zu points", w.starts.size(), nd.size()));
                for (int i : nd) {
                    auto it = std::find_if(w.starts.begin(), w.starts.end(), [&](const VectorXd& s) { return same(s, w.X[i]); });
                    mc::check(it != w.starts.end(), "search-from-pareto-point");
                    w.starts.erase(it);
                }
                double mx = *std::max_element(w.values.begin(), w.values.end());
                bool chosen = false;
                for (size_t i = 0; i < w.answers.size(); ++i)
                    chosen = chosen || (same(w.answers[i], x) && w.values[i] >= mx - 1e-12 * std::fabs(mx));
                mc::check(chosen, "evaluated-point-is-the-best-found", zoo::str(x));
            }
            w.iter++;
        }
        w.starts.clear();
        w.answers.clear();
        w.values.clear();
        VectorXd y = w.value(w.evals++);
        if (w.evals - 1 == w.fail_at)
            throw limbo::EvaluationError();
        w.X.push_back(x);
        w.Y.push_back(y);
        return y;
    }
};
struct Inner {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        Run& w = *R;
        mc::check(bounded, "bounded-search");
        w.rec("when the next point is chosen");
        w.at_decision();
        w.starts.push_back(init);
        int n = mc::choose(w.points);
        VectorXd p = VectorXd::Constant(init.size(), (3 + 4 * n + 2 * (w.X.size() % 3)) / 19.);
        f(init, false);
        w.answers.push_back(p);
        w.values.push_back(limbo::opt::fun(f(p, false)));
        mc::check(w.values.back() == w.values.back() && w.values.back() >= -1e-12, "improvement-non-negative");
        // the value is the expected improvement of the hypervolume beyond the reference point
        double r0 = EP::bayes_opt_ehvi::x_ref(), r1 = EP::bayes_opt_ehvi::y_ref();
        LD mu[2], s[2];
        Vs front;
        for (int i : nondominated(w.Y))
            if (w.Y[i][0] > r0 && w.Y[i][1] > r1)
                front.push_back(w.Y[i]);
        for (int k = 0; k < 2; ++k) {
            ref::GP g;
            g.kern.noise0 = 0.02;
            g.kern.t = ref::EXP;
            g.kern.sf0 = 1.7;
            g.kern.l0 = 0.6;
            g.mean.t = ref::DATA;
            g.dims(init.size(), 1);
            g.X = w.X;
            for (auto& y : w.Y)
                g.Y.push_back(VectorXd::Constant(1, y[k]));
            g.dirty = true;
            mu[k] = g.mu(p)[0];
            s[k] = sqrtl(g.var(p));
        }
        LD e = ehvi(front, r0, r1, mu, s), scale = (s[0] + fabsl(mu[0] - r0)) * (s[1] + fabsl(mu[1] - r1));
        mc::check(fabsl(w.values.back() - e) <= 1e-6L * fabsl(e) + 1e-7L * scale, "improvement-value", mc::fmt("%.10g instead of %.10Lg at %s: observations %s, reference (%g, %g)", w.values.back(), e, zoo::str(p).c_str(), show(w.Y).c_str(), r0, r1));
        return p;
    }
};
struct Stat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A&)
    {
        R->stats++;
        R->rec("when statistics are written");
        mc::check(R->stats == R->iter, "statistics-per-iteration");
    }
};
template <int DIN>
struct Sys {
    typedef lex::bayes_opt::Ehvi<EP, limbo::modelfun<G>, limbo::initfun<Init>, limbo::statsfun<Stat>, limbo::acquiopt<Inner>, limbo::stopcrit<limbo::stop::MaxIterations<EP>>> BO;
    Run w;
    BO bo;
    Fun<DIN> fun;
    int total = 0;
    bool initialised = false;
    Sys()
    {
        R = &w;
        w.samples = [this]() -> const Vs& { return bo.samples(); };
        w.observations = [this]() -> const Vs& { return bo.observations(); };
        w.at_decision = [this] {
            models(bo.models(), w.X, w.Y, "decision");
            pareto_is(bo.pareto_data(), w.X, w.Y, "decision");
        };
    }
    ~Sys() { R = nullptr; }
    void run(bool reset, int budget, int n_init)
    {
        mc::note(mc::fmt("optimize(%s, %d, %d initial)", reset ? "reset" : "resume", budget, n_init));
        EP::stop_maxiterations::set_iterations(budget);
        bool fresh = reset || !initialised;
        if (reset) {
            w.X.clear();
            w.Y.clear();
            total = 0;
        }
        w.inits = w.iter = w.stats = 0;
        w.n_init = n_init;
        w.starts.clear();
        w.answers.clear();
        w.values.clear();
        size_t before = w.X.size();
        bo.optimize(fun, reset);
        mc::op();
        initialised = true;
        mc::check(w.inits == (fresh ? 1 : 0), "initialisation-count");
        int n = (int)w.X.size() - (int)before - (fresh ? n_init : 0);
        // at least one evaluation, otherwise there is nothing to report
        bool first = before == 0 && (!fresh || n_init == 0);
        mc::check(n == std::max(budget, first ? 1 : 0) && n == w.iter && n == w.stats, "iterations", mc::fmt("%d evaluations for a budget of %d", n, budget));
        total += n;
        mc::check(bo.total_iterations() == total && bo.current_iteration() == n, "iteration-counters");
        w.rec("after the run");
        pareto_is(bo.pareto_data(), w.X, w.Y, "after-run");
        models(bo.models(), w.X, w.Y, "after-run");
        mc::state(key(w.X, w.Y));
    }
};
static void refs(int k)
{
    EP::bayes_opt_ehvi::set_x_ref(k == 0 ? -3 : k == 1 ? 0.5 : -11);
    EP::bayes_opt_ehvi::set_y_ref(k == 0 ? -2 : k == 1 ? 0.25 : 0.5);
}
// every sequence of observations; the reference point below all of them, between them, or beyond one objective
static void sequences(int n, int ref, const std::vector<double>& val, int points)
{
    EP::bayes_opt_bobase::set_stats_enabled(false);
    refs(ref);
    int init = 1 + mc::choose(n);
    Sys<1> s;
    s.w.points = points;
    Vs vals;
    for (int i = 0; i < n; ++i) {
        VectorXd y(2);
        y << mc::pick(val), mc::pick(val);
        vals.push_back(y);
        if (i == 0)
            mc::shard();
    }
    s.w.value = [&](int k) { return vals[k]; };
    s.run(true, n - init, init);
}
MC_SUITE("ehvi_below", [] { sequences(3, 0, {-1, 0, 2}, mc::tier(1, 3)); }, 8);
MC_SUITE("ehvi_between", [] { sequences(3, 1, {-1, 0, 2}, mc::tier(1, 3)); }, 8);
MC_SUITE("ehvi_beyond_one", [] { sequences(mc::tier(3, 4), 2, {-1, 2}, 2); }, 8);
MC_SUITE("ehvi_choices", [] { sequences(mc::tier(3, 4), 0, {-1, 2}, 3); }, 8);
template <int DIN>
void calls(int n)
{
    EP::bayes_opt_bobase::set_stats_enabled(false);
    refs(mc::choose(3));
    Sys<DIN> s;
    s.w.points = 1;
    s.w.value = [](int k) { return (VectorXd(2) << (k * 5) % 7 / 2. - 1, (k * 3) % 5 / 2. - 0.75).finished(); };
    for (int i = 0; i < n; ++i) {
        bool reset = mc::flip();
        int budget = mc::choose(4), init = mc::choose(3);
        if (i == 0)
            mc::shard();
        s.run(reset, budget, init);
    }
}
MC_SUITE("ehvi_calls_1", [] { calls<1>(mc::tier(2, 3)); }, 8);
MC_SUITE("ehvi_calls_3", [] { calls<3>(2); }, 8);
MC_SUITE("ehvi_failure", [] {
    EP::bayes_opt_bobase::set_stats_enabled(false);
    refs(0);
    Sys<1> s;
    s.w.points = 1;
    s.w.value = [](int k) { return (VectorXd(2) << (k * 5) % 7 / 2. - 1, (k * 3) % 5 / 2. - 0.75).finished(); };
    int budget = mc::choose(4), init = 1 + mc::choose(2);
    s.w.fail_at = mc::choose(5);
    mc::shard();
    bool thrown = false;
    try {
        s.run(true, budget, init);
    }
    catch (limbo::EvaluationError&) {
        thrown = true;
        s.w.rec("after the failure");
        s.initialised = s.w.fail_at >= init;
        s.total = s.w.X.size() - std::min<int>(init, s.w.X.size());
    }
    mc::check(thrown == (s.w.fail_at < budget + init), "failure-reported");
    s.w.fail_at = -1;
    if (thrown && !s.initialised && !s.w.X.empty())
        return; // resuming inside the initial design is up to the initialiser
    s.run(false, 2, 1);
}, 2);
// every policy given is used, in whatever order
typedef limbo::modelfun<G> Q0;
typedef limbo::initfun<Init> Q1;
typedef limbo::statsfun<Stat> Q2;
typedef limbo::acquiopt<Inner> Q3;
typedef limbo::stopcrit<limbo::stop::MaxIterations<EP>> Q4;
template <typename B>
void policies(const char* order)
{
    auto c = [&](bool ok, const char* what) { mc::check(ok, mc::fmt("policy-ignored-%s", what), order); };
    c(std::is_same<typename B::model_t, G>::value, "model");
    c(std::is_same<typename B::init_function_t, Init>::value, "init");
    c(std::is_same<typename B::stat_t, boost::fusion::vector<Stat>>::value, "statistics");
    c(std::is_same<typename B::acqui_optimizer_t, Inner>::value, "acquisition-optimiser");
    c(std::is_same<typename B::stopping_criteria_t, boost::fusion::vector<limbo::stop::MaxIterations<EP>>>::value, "stopping-criterion");
    mc::op();
    mc::state(order);
}
template <typename... A>
using EH = lex::bayes_opt::Ehvi<EP, A...>;
MC_SUITE("policies", [] {
    policies<EH<Q0, Q1, Q2, Q3, Q4>>("rotation 0");
    policies<EH<Q1, Q2, Q3, Q4, Q0>>("rotation 1");
    policies<EH<Q2, Q3, Q4, Q0, Q1>>("rotation 2");
    policies<EH<Q3, Q4, Q0, Q1, Q2>>("rotation 3");
    policies<EH<Q4, Q0, Q1, Q2, Q3>>("rotation 4");
    policies<EH<Q4, Q3, Q2, Q1, Q0>>("reverse rotation 0");
    policies<EH<Q3, Q2, Q1, Q0, Q4>>("reverse rotation 1");
    policies<EH<Q2, Q1, Q0, Q4, Q3>>("reverse rotation 2");
});
#else
// ---------------------------------------------------------------- ParEGO's scalarised model
// the first observations are the unit vectors, which show the weights: y = (1 + rho) w_j
template <typename M>
VectorXd scalarised(const M& m, const Vs& X, const Vs& Y, int d, bool shown, const char* where)
{
    double rho = EP::model_gp_parego::rho();
    mc::check(m.nb_samples() == (int)X.size() && same(m.samples(), X), mc::fmt("%s-scalarised-model-samples", where), mc::fmt("%s, given %s", show(m.samples()).c_str(), show(X).c_str()));
    mc::check(m.observations().size() == X.size() && m.dim_out() == 1, mc::fmt("%s-scalarised-model-size", where));
    VectorXd w(d);
    for (auto& y : m.observations())
        mc::check(y.size() == 1, mc::fmt("%s-scalarised-observation-size", where));
    if (!shown)
        return w;
    for (int j = 0; j < d; ++j)
        w[j] = m.observations()[j][0] / (1 + rho);
    mc::check(w.minCoeff() >= 0 && std::fabs(w.sum() - 1) < 1e-9, mc::fmt("%s-weights", where), mc::fmt("weights %s", zoo::str(w).c_str()));
    for (size_t i = 0; i < Y.size(); ++i) {
        double mx = (w.array() * Y[i].array()).maxCoeff(), e = mx + rho * w.dot(Y[i]), v = m.observations()[i][0];
        mc::check(std::fabs(v - e) <= 1e-9 * (1 + Y[i].cwiseAbs().maxCoeff()), mc::fmt("%s-scalarisation", where), mc::fmt("%s becomes %.12g instead of %.12g with weights %s", zoo::str(Y[i]).c_str(), v, e, zoo::str(w).c_str()));
    }
    mc::op();
    return w;
}
static void model_history(int d, int n, int draws)
{
    typedef lex::model::GPParego<EP, G> PG;
    EP::model_gp_parego::set_rho(mc::choose(3) * 0.05);
    PG m(1, d);
    Vs X, Y;
    rng::reset(draws, 5);
    for (int j = 0; j < d; ++j) {
        X.push_back(VectorXd::Constant(1, j / 8.));
        Y.push_back(VectorXd::Unit(d, j));
    }
    int batch = mc::choose(2);
    if (batch)
        m.compute(X, Y);
    else {
        for (int j = 0; j < d; ++j)
            m.add_sample(X[j], Y[j]);
    }
    mc::shard();
    static const std::vector<double> val = {-2, 0, 1, 3};
    for (int i = 0;; ++i) {
        if (m.observations().back()[0] != m.observations().back()[0])
            throw mc::Skip(); // all weights drawn zero
        scalarised(m, X, Y, d, true, "model");
        ref::GP g; // and the predictions are those of the scalarised data
        g.kern.noise0 = 0.02;
        g.kern.t = ref::EXP;
        g.kern.sf0 = 1.7;
        g.kern.l0 = 0.6;
        g.mean.t = ref::DATA;
        g.dims(1, 1);
        g.X = X;
        g.Y = m.observations();
        g.dirty = true;
        VectorXd q = VectorXd::Constant(1, 0.3);
        mc::check(zoo::close(m.mu(q)[0], g.mu(q)[0], 1e-6) && zoo::close(m.sigma(q), g.var(q), 1e-6), "model-prediction");
        mc::state(key(X, m.observations()));
        if (i == n)
            break;
        VectorXd y(d);
        for (int k = 0; k < d; ++k)
            y[k] = mc::pick(val);
        X.push_back(VectorXd::Constant(1, 0.5 + i / 8.));
        Y.push_back(y);
        if (mc::flip())
            m.add_sample(X.back(), Y.back());
        else
            m.compute(X, Y);
    }
}
MC_SUITE("parego_2", [] { model_history(2, 2, 2); }, 8);
MC_SUITE("parego_3", [] { model_history(3, 1, 3); }, 8);
MC_SUITE("parego_2_draws", [] { model_history(2, 1, mc::tier(4, 6)); }, 8);
// new weights for every model: different draws must be able to give different weights, in every component
MC_SUITE("weights_vary", [] {
    int d = 2 + mc::choose(3), add = mc::choose(2);
    typedef lex::model::GPParego<EP, G> PG;
    EP::model_gp_parego::set_rho(0.05);
    rng::reset(0);
    PG m(1, d);
    Vs X, Y;
    for (int j = 0; j < d; ++j) {
        X.push_back(VectorXd::Constant(1, j / 8.));
        Y.push_back(VectorXd::Unit(d, j));
    }
    m.compute(X, Y);
    VectorXd lo = VectorXd::Constant(d, 2), hi = VectorXd::Constant(d, -1);
    for (int i = 0; i < 40; ++i) {
        if (add) {
            X.push_back(VectorXd::Constant(1, 0.5 + i / 100.));
            Y.push_back(VectorXd::Constant(d, i % 5));
            m.add_sample(X.back(), Y.back());
        }
        else
            m.compute(X, Y);
        VectorXd w = scalarised(m, X, Y, d, true, "varying");
        lo = lo.cwiseMin(w);
        hi = hi.cwiseMax(w);
    }
    mc::check((hi - lo).minCoeff() > 0.2, "weights-are-drawn-anew", mc::fmt("in 40 models the weights stay within %s and %s", zoo::str(lo).c_str(), zoo::str(hi).c_str()));
    mc::state(mc::fmt("vary %d %d", d, add));
});
// ---------------------------------------------------------------- the ParEGO optimiser
struct PW {
    Vs X, Y;
    int n_init = 0, iter = 0, asks = 0;
    bool in_init = false, asked = false;
    VectorXd answer;
    std::function<VectorXd(int)> value;
    std::function<void()> at_decision;
};
static PW* P;
struct PInit {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& opt) const
    {
        P->in_init = true;
        for (int i = 0; i < P->n_init; ++i)
            opt.eval_and_add(f, VectorXd::Constant(F::dim_in(), (2 * i + 1) / 16.));
        P->in_init = false;
    }
};
template <int D>
struct PFun {
    BO_PARAM(size_t, dim_in, 1);
    BO_PARAM(size_t, dim_out, D);
    VectorXd operator()(const VectorXd& x) const
    {
        mc::op();
        if (!P->in_init) {
            mc::check(P->asked && same(x, P->answer), "evaluated-point");
            P->iter++;
        }
        P->asked = false;
        P->X.push_back(x);
        P->Y.push_back(P->value(P->Y.size()));
        return P->Y.back();
    }
};
struct PInner {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool) const
    {
        P->at_decision();
        P->asks++;
        VectorXd p = VectorXd::Constant(1, (1 + P->X.size() + 7 * mc::choose(2)) / 23.);
        f(p, false);
        P->answer = p;
        P->asked = true;
        return p;
    }
};
struct PStat {
    template <typename BO, typename A>
    void operator()(const BO&, const A&) {}
};
typedef limbo::acqui::UCB<EP, lex::model::GPParego<EP, G>> PAcq;
typedef lex::bayes_opt::parego_modelfun<G> R0;
typedef limbo::initfun<PInit> R1;
typedef limbo::acquifun<PAcq> R2;
typedef limbo::acquiopt<PInner> R3;
typedef limbo::statsfun<PStat> R4;
template <typename... A>
using PE = lex::bayes_opt::Parego<EP, A...>;
template <int D>
void parego_runs(int n)
{
    EP::bayes_opt_bobase::set_stats_enabled(false);
    EP::model_gp_parego::set_rho(0.05);
    rng::reset(0);
    PE<R0, R1, R2, R3, R4> bo;
    PW w;
    P = &w;
    // the first D evaluations are the unit vectors
    w.value = [](int k) -> VectorXd { if (k < D) return VectorXd::Unit(D, k); VectorXd y(D); for (int i = 0; i < D; ++i) y[i] = (k * (i + 3) + i) % 5 - 2; return y; };
    auto check = [&](const char* where) {
        mc::check(same(bo.samples(), w.X) && same(bo.observations(), w.Y), "record", where);
        if (!w.X.empty())
            scalarised(bo.model(), w.X, w.Y, D, (int)w.X.size() >= D, where);
    };
    w.at_decision = [&] { check("decision"); };
    PFun<D> f;
    for (int i = 0; i < n; ++i) {
        bool reset = mc::flip();
        int budget = mc::choose(4);
        w.n_init = mc::choose(4);
        if (i == 0)
            mc::shard();
        if (reset || i == 0) {
            w.X.clear();
            w.Y.clear();
        }
        w.iter = w.asks = 0;
        EP::stop_maxiterations::set_iterations(budget);
        bo.optimize(f, limbo::FirstElem(), reset);
        mc::check(w.iter == budget && w.asks == budget, "iterations");
        check("after-run");
        mc::state(key(w.X, w.Y));
    }
    P = nullptr;
}
MC_SUITE("parego_runs_2", [] { parego_runs<2>(2); }, 8);
MC_SUITE("parego_runs_3", [] { parego_runs<3>(2); }, 8);
template <typename B>
void policies(const char* order)
{
    auto c = [&](bool ok, const char* what) { mc::check(ok, mc::fmt("policy-ignored-%s", what), order); };
    c(std::is_same<typename B::model_t, lex::model::GPParego<EP, G>>::value, "scalarised-model");
    c(std::is_same<typename B::init_function_t, PInit>::value, "init");
    c(std::is_same<typename B::acquisition_function_t, PAcq>::value, "acquisition");
    c(std::is_same<typename B::acqui_optimizer_t, PInner>::value, "acquisition-optimiser");
    c(std::is_same<typename B::stat_t, boost::fusion::vector<PStat>>::value, "statistics");
    mc::op();
    mc::state(order);
}
MC_SUITE("parego_policies", [] {
    policies<PE<R0, R1, R2, R3, R4>>("rotation 0");
    policies<PE<R1, R2, R3, R4, R0>>("rotation 1");
    policies<PE<R2, R3, R4, R0, R1>>("rotation 2");
    policies<PE<R3, R4, R0, R1, R2>>("rotation 3");
    policies<PE<R4, R0, R1, R2, R3>>("rotation 4");
    policies<PE<R4, R3, R2, R1, R0>>("reverse rotation 0");
    policies<PE<R3, R2, R1, R0, R4>>("reverse rotation 1");
    policies<PE<R2, R1, R0, R4, R3>>("reverse rotation 2");
    // nothing given but the initialisation: a scalarised default model
    mc::check(std::is_same<PE<R1>::model_t, lex::model::GPParego<EP, limbo::model::GP<EP>>>::value, "default-scalarised-model");
});
// ---------------------------------------------------------------- statistics
struct Mock { // what the statistics may ask of an optimiser
    Vs X, Y;
    std::string dir;
    bool on = true;
    int it = 0;
    int updates = 0;
    typedef std::tuple<VectorXd, VectorXd, VectorXd> point;
    std::vector<point> pd, pm;
    bool stats_enabled() const { return on; }
    const std::string& res_dir() const { return dir; }
    const Vs& samples() const { return X; }
    const Vs& observations() const { return Y; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
    const std::vector<point>& pareto_data() const { return pd; }
    const std::vector<point>& pareto_model() const { return pm; }
    void update_pareto_data()
    {
        pd.clear();
        for (int i : nondominated(Y))
            pd.push_back(point(X[i], Y[i], VectorXd::Zero(Y[i].size())));
    }
    template <int D>
    void update_pareto_model()
    {
        pm.clear();
        for (size_t i = 0; i < X.size(); ++i)
            pm.push_back(point(X[i], -Y[i], VectorXd::Constant(Y[i].size(), 0.5)));
    }
};
static std::vector<std::vector<double>> rows(const std::string& f)
{
    std::vector<std::vector<double>> r;
    std::ifstream in(f);
    mc::check(in.good(), "statistics-file-missing", f.substr(f.rfind('/') + 1));
    for (std::string l; std::getline(in, l);) {
        std::istringstream s(l);
        r.emplace_back();
        for (double d; s >> d;)
            r.back().push_back(d);
        mc::check(s.eof(), "statistics-file-format", l);
    }
    return r;
}
static void expect(const std::string& f, std::vector<std::vector<double>> e)
{
    auto r = rows(f);
    std::string n = f.substr(f.rfind('/') + 1);
    n = n.substr(0, n.rfind('_'));
    auto close = [](const std::vector<double>& a, const std::vector<double>& b) {
        bool ok = a.size() == b.size();
        for (size_t i = 0; ok && i < a.size(); ++i)
            ok = std::fabs(a[i] - b[i]) <= 1e-5 * std::max(1., std::fabs(b[i]));
        return ok;
    };
    mc::check(r.size() == e.size(), "statistics-" + n, mc::fmt("%zu lines instead of %zu", r.size(), e.size()));
    for (auto& x : e) { // in any order
        auto it = std::find_if(r.begin(), r.end(), [&](const std::vector<double>& y) { return close(y, x); });
        mc::check(it != r.end(), "statistics-" + n, "a line is missing");
        r.erase(it);
    }
}
static std::vector<double> cat(const VectorXd& a, const VectorXd& b = VectorXd())
{
    std::vector<double> r(a.data(), a.data() + a.size());
    r.insert(r.end(), b.data(), b.data() + b.size());
    return r;
}
struct F2 {
    BO_PARAM(size_t, dim_in, 2);
    BO_PARAM(size_t, dim_out, 2);
    VectorXd operator()(const VectorXd& x) const { return (VectorXd(2) << 3 * x[0], x[1] - 1).finished(); }
};
struct Scratch {
    std::string dir;
    Scratch()
    {
        char t[] = "/tmp/verif_e05_XXXXXX";
        dir = mkdtemp(t);
    }
    ~Scratch() { boost::filesystem::remove_all(dir); }
};
static void stats(int n, const std::vector<double>& val, int d)
{
    Scratch s;
    Mock m;
    m.dir = s.dir;
    m.on = mc::choose(4) != 0;
    lex::stat::ParetoFront<EP> front;
    lex::stat::ParetoBenchmark<F2> bench;
    for (int i = 0; i < n; ++i) {
        VectorXd y(d);
        for (int k = 0; k < d; ++k)
            y[k] = mc::pick(val);
        if (i == 0)
            mc::shard();
        m.X.push_back((VectorXd(2) << i / 8., 1 - i / 4.).finished());
        m.Y.push_back(y);
        m.it = i;
        front(m, limbo::FirstElem());
        bench(m, limbo::FirstElem());
        mc::op(2);
    }
    boost::filesystem::directory_iterator it(s.dir), end;
    if (!m.on) {
        mc::check(it == end, "statistics-disabled", it == end ? "" : it->path().filename().string() + " is written although the statistics are disabled");
        mc::state(key(m.X, m.Y) + 1);
        return;
    }
    for (int i = 0; i < n; ++i) {
        Vs X(m.X.begin(), m.X.begin() + i + 1), Y(m.Y.begin(), m.Y.begin() + i + 1);
        std::vector<std::vector<double>> f, d, mo, re, ob;
        for (int k : nondominated(Y)) {
            f.push_back(cat(X[k], Y[k]));
            d.push_back(cat(Y[k]));
        }
        for (size_t k = 0; k < X.size(); ++k) {
            mo.push_back(cat(-Y[k], VectorXd::Constant(Y[k].size(), 0.5)));
            re.push_back(cat(F2()(X[k])));
            ob.push_back(cat(Y[k], X[k]));
        }
        std::string e = "_" + std::to_string(i) + ".dat";
        expect(s.dir + "/pareto_front" + e, f);
        expect(s.dir + "/pareto_data" + e, d);
        expect(s.dir + "/pareto_model" + e, mo);
        expect(s.dir + "/pareto_model_real" + e, re);
        expect(s.dir + "/obs" + e, ob);
    }
    mc::state(key(m.X, m.Y));
}
MC_SUITE("stats_2", [] { stats(mc::tier(3, 4), {-1, 0, 2.5}, 2); }, 8);
MC_SUITE("stats_3", [] { stats(2, {-1, 0, 2.5}, 3); }, 8);
#endif
MC_MAIN
