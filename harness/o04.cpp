// O04: the CMA-ES wrapper on a stand-in for libcmaes whose candidates the explorer chooses: every run is compared
// with the documented settings driving the same candidates.
#include "mc.hpp"
#include "zoo.hpp"
#include <limbo/opt/cmaes.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
using Eigen::VectorXd;
using namespace limbo;
struct P {
    struct opt_cmaes : public defaults::opt_cmaes {
        VDYN(int, restarts)
        VDYN(int, max_fun_evals)
        VDYN(int, max_iters)
        VDYN(bool, auto_max_iters)
        VDYN(bool, equal_fun_evals)
        VDYN(bool, stagnation)
        VDYN(double, fun_tolerance)
        VDYN(double, xrel_tolerance)
        VDYN(double, fun_target)
        VDYN(bool, fun_compute_initial)
        VDYN(int, variant)
        VDYN(int, elitism)
        VDYN(bool, handle_uncertainty)
        VDYN(bool, verbose)
        VDYN(double, lbound)
        VDYN(double, ubound)
        VDYN(bool, stochastic)
        VDYN(int, lambda)
    };
    struct bayes_opt_bobase : public defaults::bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
        VDYN(bool, bounded)
    };
    struct bayes_opt_boptimizer : public defaults::bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct bayes_opt_cboptimizer : public defaults::bayes_opt_cboptimizer {
        BO_PARAM(int, hp_period, -1);
        BO_PARAM(bool, stats_enabled, false);
        VDYN(bool, bounded)
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 2);
    };
    struct stop_maxiterations {
        VDYN(int, iterations)
    };
    struct acqui_ucb : public defaults::acqui_ucb {
    };
    struct acqui_eci : public defaults::acqui_eci {
    };
    struct kernel : public defaults::kernel {
    };
    struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
    };
    struct kernel_exp : public defaults::kernel_exp {
    };
    struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
    };
    struct mean_constant : public defaults::mean_constant {
    };
    struct opt_rprop : public defaults::opt_rprop {
    };
};
typedef libcmaes::Settings Settings;
typedef std::vector<VectorXd> Points;
// what the user configured
struct Conf {
    int restarts = 1, max_fun_evals = -1, max_iters = -1, variant = aIPOP_CMAES, elitism = 0, lambda = -1;
    bool auto_max_iters = true, equal_fun_evals = true, stagnation = true, fun_compute_initial = false, handle_uncertainty = false, verbose = false, stochastic = false;
    double fun_tolerance = -1, xrel_tolerance = -1, fun_target = -1, lbound = 0, ubound = 1;
    std::string name = "default";
    void apply() const
    {
        typedef P::opt_cmaes O;
        O::set_restarts(restarts);
        O::set_max_fun_evals(max_fun_evals);
        O::set_max_iters(max_iters);
        O::set_variant(variant);
        O::set_elitism(elitism);
        O::set_lambda(lambda);
        O::set_auto_max_iters(auto_max_iters);
        O::set_equal_fun_evals(equal_fun_evals);
        O::set_stagnation(stagnation);
        O::set_fun_compute_initial(fun_compute_initial);
        O::set_handle_uncertainty(handle_uncertainty);
        O::set_verbose(verbose);
        O::set_stochastic(stochastic);
        O::set_fun_tolerance(fun_tolerance);
        O::set_xrel_tolerance(xrel_tolerance);
        O::set_fun_target(fun_target);
        O::set_lbound(lbound);
        O::set_ubound(ubound);
    }
    // the documented meaning
    Settings meaning(bool bounded) const
    {
        Settings s;
        s.restarts = restarts;
        s.max_fevals = max_fun_evals < 0 ? 1000000000 : max_fun_evals;
        s.max_iter = max_iters < 0 ? 1000000000 : max_iters;
        s.algo = variant;
        s.elitism = elitism;
        s.lambda = lambda;
        s.initial_fvalue = fun_compute_initial;
        s.uh = handle_uncertainty;
        s.quiet = !verbose;
        s.off[libcmaes::AUTOMAXITER] = !auto_max_iters;
        s.off[libcmaes::EQUALFUNVALS] = !equal_fun_evals;
        s.off[libcmaes::STAGNATION] = !stagnation;
        s.off[libcmaes::TOLHISTFUN] = fun_tolerance < 0;
        s.ftolerance = fun_tolerance;
        s.off[libcmaes::TOLX] = xrel_tolerance < 0;
        s.xtolerance = xrel_tolerance;
        s.off[libcmaes::FTARGET] = fun_target < 0;
        s.ftarget = -fun_target;
        s.off[libcmaes::NOEFFECTAXIS] = s.off[libcmaes::NOEFFECTCOOR] = true;
        return s;
    }
};
// one deviation from the default settings
static const int SETTINGS = 17;
static void deviate(Conf& c, int k)
{
    const char* names[SETTINGS] = {"budget 1", "budget 3", "budget 4", "2 iterations", "no automatic maximum", "equal values allowed", "stagnation allowed", "tolerance 0.5",
        "tolerance on the parameters 0.3", "target 0.5", "initial value computed", "uncertainty handled", "stochastic", "no restart", "3 restarts", "elitism 2", "population 2"};
    switch (k) {
    case 0: c.max_fun_evals = 1; break;
    case 1: c.max_fun_evals = 3; break;
    case 2: c.max_fun_evals = 4; break;
    case 3: c.max_iters = 2; break;
    case 4: c.auto_max_iters = false; break;
    case 5: c.equal_fun_evals = false; break;
    case 6: c.stagnation = false; break;
    case 7: c.fun_tolerance = 0.5; break;
    case 8: c.xrel_tolerance = 0.3; break;
    case 9: c.fun_target = 0.5; break;
    case 10: c.fun_compute_initial = true; break;
    case 11: c.handle_uncertainty = true; break;
    case 12: c.stochastic = true; break;
    case 13: c.restarts = 0; break;
    case 14: c.restarts = 3; break;
    case 15:
        c.elitism = 2;
        c.variant = BIPOP_CMAES;
        c.verbose = true;
        break;
    case 16: c.lambda = 2; break;
    }
    c.name += std::string(", ") + names[k];
}
static const int OBJECTIVES = 5;
static double objective(int o, const VectorXd& x)
{
    double s = 0;
    for (int i = 0; i < x.size(); ++i)
        s += (i % 2 ? -0.6 : 1) * x[i];
    switch (o) {
    case 0: return 1 - (x.array() - 0.4).square().sum();
    case 1: return s - 5;
    case 2: return -3;
    case 3: return x[0] > 0.7 ? -INFINITY : -s;
    default: return s > 0.5 ? 2 : 1 + 0.3 * s;
    }
}
struct Generation {
    bool more;
    Points x; // genotypes
};
struct Trial {
    std::vector<Generation> script;
    size_t at = 0;
    Points evaluated;
    std::vector<Settings> started;
    int progress = 0;
};
static void compare(const Trial& t, const Points& expected, const VectorXd& got, const VectorXd& want, bool bounded, double lb, double ub)
{
    for (size_t i = 0; i < t.evaluated.size(); ++i) {
        auto& x = t.evaluated[i];
        mc::check(x.allFinite(), "finite", "a point evaluated is not finite");
        if (bounded)
            mc::check(x.minCoeff() >= lb - 1e-12 && x.maxCoeff() <= ub + 1e-12, "bounds", "evaluated " + zoo::str(x));
        if (i < expected.size())
            mc::check(x.size() == expected[i].size() && (x - expected[i]).cwiseAbs().maxCoeff() < 1e-9, "evaluation", mc::fmt("evaluation %zu is %s, the candidate was %s", i, zoo::str(x).c_str(), zoo::str(expected[i]).c_str()));
    }
    mc::check(t.evaluated.size() == expected.size(), "stop", mc::fmt("%zu evaluations, %zu with the documented settings", t.evaluated.size(), expected.size()));
    mc::check(got.size() == want.size() && (got - want).cwiseAbs().maxCoeff() < 1e-9, "result", mc::fmt("%s returned instead of %s", zoo::str(got).c_str(), zoo::str(want).c_str()));
    if (bounded)
        mc::check(got.minCoeff() >= lb - 1e-12 && got.maxCoeff() <= ub + 1e-12, "bounds", "returned " + zoo::str(got));
}
template <class G>
static VectorXd reference(const Conf& c, const G& gp, bool bounded, const VectorXd& init, int o, const std::vector<Generation>& script, int stop_after, Points& evaluated)
{
    Settings s = c.meaning(bounded);
    VectorXd g0 = gp.geno(init);
    s.x0.assign(g0.data(), g0.data() + g0.size());
    s.dim = init.size();
    size_t at = 0;
    int calls = 0;
    libcmaes::CMASolutions sol = libcmaes::drive(
        s, gp, [&](const Settings&, int, int, const VectorXd&, Points& x) {
            if (at >= script.size()) { // not asked for by the run under test
                evaluated.push_back(VectorXd::Constant(init.size(), 1e9));
                return false;
            }
            x = script[at].x;
            return script[at++].more; },
        [&](const VectorXd& x) {
            evaluated.push_back(x);
            return -objective(o, x);
        },
        [&](const libcmaes::CMASolutions&) { return ++calls == stop_after ? 1 : 0; });
    if (at < script.size())
        mc::fail("stop", "the search went on after the documented settings stop it");
    return gp.pheno(c.stochastic || c.handle_uncertainty ? sol.xmean() : sol.get_best_seen_candidate().get_x_dvec());
}
// progress: 0 none, 1 a function of the solutions, 2 a function that may stop the run, 3 both
template <class Opt>
static void use(const Opt& opt, Trial& t, const Conf& c, bool bounded, const VectorXd& init, int o, int generations, const std::function<Points(int, int)>& candidates, int progress, int stop_after)
{
    int d = init.size(), made = 0;
    libcmaes::Script sc;
    sc.generation = [&](const Settings& s, int run, int, const VectorXd&, Points& x) {
        mc::op();
        Generation g;
        g.more = made < generations;
        if (g.more) {
            int n = s.lambda < 0 ? 1 : s.lambda;
            x = candidates(made, n);
            for (auto& p : x)
                mc::note(zoo::str(p));
            g.x = x;
            made++;
        }
        t.script.push_back(g);
        mc::check(t.script.size() < 100, "endless", "the search never ends");
        return g.more;
    };
    libcmaes::script() = &sc;
    auto f = [&](const VectorXd& x, bool) {
        t.evaluated.push_back(x);
        return opt::no_grad(objective(o, x));
    };
    c.apply();
    t.progress = 0;
    VectorXd r = opt(f, init, bounded);
    libcmaes::script() = nullptr;
    mc::check(sc.started.size() == 1, "runs", mc::fmt("%zu runs of the library", sc.started.size()));
    // settings without an effect on the stand-in
    const Settings &s = sc.started[0], e = c.meaning(bounded);
    mc::check(s.dim == d, "dimension");
    mc::check(s.algo == e.algo, "variant");
    mc::check(s.elitism == e.elitism, "elitism");
    mc::check(s.uh == e.uh, "uncertainty");
    mc::check(s.quiet == e.quiet, "verbose");
    mc::check(s.lambda == e.lambda, "lambda");
    mc::check(s.sigma > 0 && std::isfinite(s.sigma), "step");
    mc::check(c.max_fun_evals < 0 ? s.max_fevals > 10 || s.max_fevals <= 0 : true, "budget", mc::fmt("%d", s.max_fevals));
    Points ev;
    VectorXd want;
    int stop = (progress & 2) ? stop_after : -1;
    if (bounded) {
        std::vector<double> lb(d, c.lbound), ub(d, c.ubound);
        want = reference(c, libcmaes::GenoPheno<libcmaes::pwqBoundStrategy>(lb.data(), ub.data(), d), true, init, o, t.script, stop, ev);
    }
    else
        want = reference(c, libcmaes::GenoPheno<libcmaes::NoBoundStrategy>(), false, init, o, t.script, stop, ev);
    compare(t, ev, r, want, bounded, c.lbound, c.ubound);
    int gens = 0;
    for (auto& g : t.script)
        gens += g.more;
    mc::check(t.progress == (progress ? gens : 0), "progress", mc::fmt("%d calls for %d generations", t.progress, gens));
    mc::state(mc::hash_str(mc::fmt("%s %d %d %zu %s", c.name.c_str(), bounded, o, t.evaluated.size(), zoo::str(r).c_str())));
}
typedef opt::Cmaes<P> Cma;
static void register_progress(Cma& opt, Trial*& t, int progress, int stop_after)
{
    if (progress & 1)
        opt.set_progress_function([&t, progress](const libcmaes::CMASolutions&) {
            if (!(progress & 2))
                t->progress++;
            else
                mc::fail("progress", "the general function is called instead of the specific one");
        });
    if (progress & 2) {
        opt.set_bounded_progress_function([&t, stop_after](const libcmaes::CMAParameters<libcmaes::GenoPheno<libcmaes::pwqBoundStrategy>>&, const libcmaes::CMASolutions&) { return ++t->progress == stop_after ? 1 : 0; });
        opt.set_unbounded_progress_function([&t, stop_after](const libcmaes::CMAParameters<>&, const libcmaes::CMASolutions&) { return ++t->progress == stop_after ? 1 : 0; });
    }
}
static Points menu(int d, int n, const std::vector<double>& v)
{
    Points p;
    for (int k = 0; k < n; ++k) {
        VectorXd x(d);
        for (int i = 0; i < d; ++i)
            x[i] = mc::pick(v);
        p.push_back(x);
    }
    return p;
}
// every pair of settings, on every sequence of candidates
static void settings(bool bounded, int generations)
{
    Conf c;
    int a = mc::choose(SETTINGS), b = a + mc::choose(SETTINGS - a);
    deviate(c, a);
    if (b != a)
        deviate(c, b);
    mc::shard();
    int o = mc::choose(OBJECTIVES);
    std::string what = c.name;
    mc::note(what + mc::fmt("; objective %d; %s;", o, bounded ? "bounded" : "unbounded"));
    Cma opt;
    Trial t, *tp = &t;
    register_progress(opt, tp, 0, -1);
    use(opt, t, c, bounded, VectorXd::Constant(1, 0.3), o, generations, [&](int, int n) { return menu(1, n, bounded ? std::vector<double>{0.35, 1.2, -0.02} : std::vector<double>{0.35, 1.2, -7}); }, 0, -1);
}
// all candidates on a grid of genotypes that exceeds the domain
static void points(int d, bool bounded, const std::vector<double>& v, int generations, int lambda, int range)
{
    Conf c;
    c.lambda = lambda;
    c.restarts = 0;
    c.equal_fun_evals = c.stagnation = c.auto_max_iters = false;
    double L[] = {0, -2, 0.5}, U[] = {1, 3, 0.6};
    c.lbound = L[range];
    c.ubound = U[range];
    c.fun_compute_initial = mc::flip();
    c.stochastic = mc::flip();
    int o = mc::choose(OBJECTIVES), at = mc::choose(3);
    mc::shard();
    VectorXd init(d);
    for (int i = 0; i < d; ++i)
        init[i] = c.lbound + (c.ubound - c.lbound) * ((at + i) % 3) / 2.0;
    mc::note(mc::fmt("objective %d, %s, bounds [%g, %g], initial value %d, stochastic %d, from %s:", o, bounded ? "bounded" : "unbounded", c.lbound, c.ubound, (int)c.fun_compute_initial, (int)c.stochastic, zoo::str(init).c_str()));
    Cma opt;
    Trial t;
    std::vector<double> w;
    for (double x : v)
        w.push_back(c.lbound + (c.ubound - c.lbound) * x);
    use(opt, t, c, bounded, init, o, generations, [&](int, int n) { return menu(d, n, w); }, 0, -1);
}
// one object, several uses
static void reuse(int uses)
{
    int progress = mc::choose(4), stop_after = 1 + mc::choose(2);
    Cma opt;
    Trial* tp = nullptr;
    register_progress(opt, tp, progress, stop_after);
    mc::note(mc::fmt("progress functions %d (stops after %d):", progress, stop_after));
    for (int k = 0; k < uses; ++k) {
        Conf c;
        int d = 1 + mc::choose(2), o = mc::choose(3);
        bool bounded = mc::flip();
        int a = mc::choose(4);
        if (a)
            deviate(c, a == 1 ? 1 : a == 2 ? 9 : 12);
        if (k == 0)
            mc::shard();
        mc::note(mc::fmt("use (%d-D, %s, objective %d, %s):", d, bounded ? "bounded" : "unbounded", o, c.name.c_str()));
        Trial t;
        tp = &t;
        int pattern = mc::choose(3);
        use(opt, t, c, bounded, VectorXd::Constant(d, 0.2), o, 3, [&](int g, int n) {
            Points p;
            for (int i = 0; i < n; ++i) {
                VectorXd x(d);
                for (int j = 0; j < d; ++j)
                    x[j] = std::fmod(0.37 * (g * 5 + i * 3 + j + pattern * 2 + 1), 1.7) - 0.3;
                p.push_back(x);
            }
            return p; }, progress, stop_after);
    }
}
// the default optimiser of the acquisition function when NLOpt is missing
struct Fun {
    BO_PARAM(size_t, dim_in, 2);
    BO_PARAM(size_t, dim_out, 1);
    Points* seen;
    VectorXd operator()(const VectorXd& x) const
    {
        seen->push_back(x);
        return VectorXd::Constant(1, std::cos(3 * x.sum()));
    }
};
struct CFun {
    BO_PARAM(size_t, dim_in, 2);
    BO_PARAM(size_t, dim_out, 1);
    BO_PARAM(size_t, nb_constraints, 1);
    Points* seen;
    VectorXd operator()(const VectorXd& x) const
    {
        seen->push_back(x);
        VectorXd r(2);
        r << std::cos(3 * x.sum()), x[0] - 0.5;
        return r;
    }
};
struct Null {
    template <typename BO, typename A>
    void operator()(const BO&, const A&) {}
};
typedef kernel::Exp<P> Kern;
typedef model::GP<P, Kern, mean::Constant<P>> Model;
template <typename BO, typename F>
static void default_of(int iterations)
{
    bool bounded = mc::flip();
    P::bayes_opt_bobase::set_bounded(bounded);
    P::bayes_opt_cboptimizer::set_bounded(bounded);
    P::stop_maxiterations::set_iterations(iterations);
    Conf c;
    c.equal_fun_evals = c.stagnation = c.auto_max_iters = false;
    c.restarts = 0;
    c.max_fun_evals = 2;
    c.apply();
    Points seen;
    int runs = 0;
    libcmaes::Script sc;
    size_t asked = 0;
    sc.generation = [&](const Settings& s, int, int g, const VectorXd&, Points& x) {
        if (g == 0) {
            runs++;
            mc::check((int)s.x0.size() == 2, "dimension");
        }
        if (g == 2)
            mc::fail("budget", "the budget of the inner optimiser is exceeded");
        x = menu(2, 1, {-0.3, 0.35, 1.6});
        mc::note(zoo::str(x[0]));
        asked++;
        mc::op();
        return true;
    };
    libcmaes::script() = &sc;
    BO bo;
    F f;
    f.seen = &seen;
    bo.optimize(f);
    libcmaes::script() = nullptr;
    mc::check(runs == iterations, "runs", mc::fmt("%d runs of the library for %d decisions", runs, iterations));
    mc::check(asked == 2u * iterations, "budget", mc::fmt("%zu candidates asked for", asked));
    mc::check((int)seen.size() == iterations + 2, "evaluations");
    for (auto& x : seen) {
        mc::check(x.size() == 2 && x.allFinite(), "finite");
        if (bounded)
            mc::check(x.minCoeff() >= 0 && x.maxCoeff() <= 1, "bounds", zoo::str(x));
    }
    mc::state(mc::hash_str(zoo::str(seen.back())));
}
typedef bayes_opt::BOptimizer<P, modelfun<Model>, acquifun<acqui::UCB<P, Model>>, statsfun<boost::fusion::vector<Null>>> Default;
typedef experimental::bayes_opt::CBOptimizer<P, modelfun<Model>, acquifun<experimental::acqui::ECI<P, Model, Model>>, statsfun<boost::fusion::vector<Null>>, experimental::constraint_modelfun<Model>> CDefault;
MC_SUITE("settings_bounded", [] { settings(true, mc::tier(5, 7)); }, 16);
MC_SUITE("settings_unbounded", [] { settings(false, mc::tier(5, 7)); }, 16);
MC_SUITE("points_1", [] { int r = mc::choose(3); bool b = mc::flip(); points(1, b, {-1.4, -0.6, -0.04, 0, 0.01, 0.3, 0.5, 0.97, 1, 1.04, 1.7, 2.6, 40}, mc::tier(3, 4), 1, r); }, 16);
MC_SUITE("population", [] { int r = mc::choose(3); bool b = mc::flip(); points(1, b, {-0.6, 0.01, 0.4, 1, 1.7}, 2, mc::tier(2, 3), r); }, 16);
MC_SUITE("points_2", [] { bool b = mc::flip(); points(2, b, {-0.6, 0.01, 0.4, 1, 1.7}, mc::tier(2, 3), 1, 0); }, 16);
MC_SUITE("points_3", [] { bool b = mc::flip(); points(3, b, {-0.6, 0.4, 1.7}, 2, 1, 1); }, 8);
MC_SUITE("reuse", [] { reuse(mc::tier(2, 3)); }, 8);
MC_SUITE("default_bo", [] { default_of<Default, Fun>(mc::tier(2, 3)); }, 8);
MC_SUITE("default_cbo", [] { default_of<CDefault, CFun>(mc::tier(2, 3)); }, 8);
MC_MAIN
