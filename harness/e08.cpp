// E08: the evolutionary multi-objective optimiser on a stand-in for sferes whose last generation the explorer chooses.
#include "mc.hpp"
#include "ref.hpp"
#include "zoo.hpp"
static int rand_choice = 0;
extern "C" int rand() { return rand_choice; }
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#include <sstream>
using Eigen::VectorXd;
typedef std::vector<VectorXd> Vs;
namespace lex = limbo::experimental;
struct EP {
    struct bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
        BO_PARAM(bool, bounded, true);
    };
    struct stop_maxiterations {
        VDYN(int, iterations)
    };
    struct kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.7);
        BO_PARAM(double, l, 0.6);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct kernel_squared_exp_ard : limbo::defaults::kernel_squared_exp_ard {
    };
    struct opt_rprop : limbo::defaults::opt_rprop {
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 2);
    };
};
typedef limbo::kernel::Exp<EP> K;
typedef limbo::model::GP<EP, K, limbo::mean::Data<EP>> G0;
// the kernel depends on the observations, so that the objectives disagree on what is uncertain
static double length(const Vs& y)
{
    double s = 0;
    for (auto& v : y)
        s += v[0];
    return 0.25 + 0.2 * std::fabs(std::sin(s));
}
static double signal(const Vs& y) { return 1 + 0.5 * std::fabs(std::cos(3 * y[0][0] + y.size())); }
struct G : G0 {
    G() : G0() {}
    G(int din, int dout) : G0(din, dout) {}
    void compute(const Vs& x, const Vs& y, bool k = true)
    {
        this->kernel_function().set_h_params((VectorXd(2) << std::log(length(y)), std::log(std::sqrt(signal(y)))).finished());
        G0::compute(x, y, k);
    }
    void add_sample(const VectorXd& x, const VectorXd& y)
    {
        Vs xs = this->samples(), ys = this->observations();
        xs.push_back(x);
        ys.push_back(y);
        compute(xs, ys);
    }
};
struct Indiv {
    VectorXd x;
    std::vector<double> objs;
};
struct Run {
    Vs X, Y;
    int n_init = 0, inits = 0, iter = 0, evals = 0, stats = 0, din = 1, nobj = 2, pop = 2, fail_at = -1, generations = 0;
    bool in_init = false;
    int pattern = 0, budget = 0;
    std::vector<Indiv> front, decided; // since the last evaluation; of the last decision
    std::function<const Vs&()> samples, observations;
    std::function<void(const char*)> models;
};
static Run* R;
static bool same(const Vs& a, const Vs& b)
{
    bool r = a.size() == b.size();
    for (size_t i = 0; r && i < a.size(); ++i)
        r = a[i].size() == b[i].size() && a[i] == b[i];
    return r;
}
static ref::GP truth(int k)
{
    ref::GP g;
    Vs y;
    for (auto& v : R->Y)
        y.push_back(VectorXd::Constant(1, v[k]));
    g.kern.noise0 = 0.02;
    g.kern.t = ref::EXP;
    g.kern.sf0 = signal(y);
    g.kern.l0 = length(y);
    g.mean.t = ref::DATA;
    g.dims(R->din, 1);
    g.X = R->X;
    g.Y = y;
    g.dirty = true;
    return g;
}
struct Init {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& opt) const
    {
        R->inits++;
        R->in_init = true;
        for (int i = 0; i < R->n_init; ++i) {
            VectorXd x(R->din);
            for (int j = 0; j < R->din; ++j)
                x[j] = (3 * i + 5 * j + 1) % 11 / 11.;
            opt.eval_and_add(f, x);
        }
        R->in_init = false;
    }
};
template <int DIN>
struct Fun {
    BO_PARAM(size_t, dim_in, DIN);
    BO_PARAM(size_t, dim_out, 2);
    VectorXd operator()(const VectorXd& x) const
    {
        Run& w = *R;
        mc::op();
        mc::check(x.size() == DIN && x.minCoeff() >= 0 && x.maxCoeff() <= 1, "argument-in-domain", zoo::str(x));
        mc::check(same(w.samples(), w.X) && same(w.observations(), w.Y), "record", "when the function is called");
        if (!w.in_init && !w.X.empty()) {
            mc::check(w.generations > 0, "evolution", "no search before the decision");
            std::vector<ref::GP> g;
            for (int k = 0; k < w.nobj; ++k)
                g.push_back(truth(k));
            auto sigma = [&](const VectorXd& p) {
                VectorXd s(w.nobj);
                for (int k = 0; k < w.nobj; ++k)
                    s[k] = g[k].var(p);
                return s;
            };
            bool found = false;
            VectorXd sx = sigma(x);
            for (auto& i : w.front) {
                found = found || (i.x - x).cwiseAbs().maxCoeff() < 1e-6;
                VectorXd s = sigma(i.x);
                mc::check(!((s - sx).minCoeff() > 1e-7), "most-uncertain", mc::fmt("%s is evaluated, %s is more uncertain for every objective", zoo::str(x).c_str(), zoo::str(i.x).c_str()));
            }
            mc::check(found, "evaluated-on-the-front", zoo::str(x) + " is not on the front of the model");
        }
        if (!w.in_init)
            w.iter++;
        w.decided = w.front;
        w.front.clear();
        w.generations = 0;
        int n = w.evals++;
        if (n == w.fail_at)
            throw limbo::EvaluationError();
        VectorXd y(w.nobj);
        for (int k = 0; k < w.nobj; ++k)
            y[k] = ((n + 1) * (5 + 2 * k) + w.pattern * (k + 1)) % 7 / 2. - 1.3 + 0.1 * x[0];
        w.X.push_back(x);
        w.Y.push_back(y);
        return y;
    }
};
template <typename BO>
static void front_is(const BO& bo, const std::vector<Indiv>& front)
{
    auto& pm = bo.pareto_model();
    mc::check(pm.size() == front.size(), "model-front-size", mc::fmt("%zu points, %zu evolved", pm.size(), front.size()));
    std::vector<bool> used(front.size(), false);
    for (auto& p : pm) {
        bool found = false;
        for (size_t i = 0; i < front.size() && !found; ++i)
            if (!used[i] && (front[i].x - std::get<0>(p)).cwiseAbs().maxCoeff() < 1e-6) {
                bool ok = (int)front[i].objs.size() == std::get<1>(p).size();
                for (size_t k = 0; ok && k < front[i].objs.size(); ++k)
                    ok = std::fabs(front[i].objs[k] - std::get<1>(p)[k]) < 1e-5;
                if (ok)
                    used[i] = found = true;
            }
        mc::check(found, "model-front", zoo::str(std::get<0>(p)) + " with " + zoo::str(std::get<1>(p)));
    }
}
struct Stat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A&)
    {
        R->stats++;
        mc::check(same(bo.samples(), R->X) && same(bo.observations(), R->Y), "record", "when statistics are written");
        mc::check(R->stats == R->iter, "statistics-per-iteration");
        mc::check(bo.current_iteration() == R->iter - 1, "iteration-number");
        if (R->X.size() > 1 && !R->decided.empty() && R->generations == 0) {
            front_is(bo, R->decided);
            // the uncertainties that were used are those of the models that decided (without the last sample)
            Vs X = R->X, Y = R->Y;
            R->X.pop_back();
            R->Y.pop_back();
            for (int k = 0; k < R->nobj; ++k) {
                ref::GP g = truth(k);
                for (auto& p : bo.pareto_model())
                    mc::check(std::fabs(std::get<2>(p)[k] - (double)g.var(std::get<0>(p))) < 1e-6, "model-front-uncertainty", mc::fmt("%g instead of %g at %s", std::get<2>(p)[k], (double)g.var(std::get<0>(p)), zoo::str(std::get<0>(p)).c_str()));
            }
            R->X = X;
            R->Y = Y;
        }
    }
};
template <int DIN>
struct Sys {
    typedef lex::bayes_opt::Nsbo<EP, limbo::modelfun<G>, limbo::initfun<Init>, limbo::statsfun<Stat>, limbo::stopcrit<limbo::stop::MaxIterations<EP>>> BO;
    Run w;
    BO bo;
    Fun<DIN> fun;
    std::ostringstream sink;
    std::streambuf* out;
    int total = 0;
    bool initialised = false;
    std::vector<float> values;
    Sys(const std::vector<float>& v) : values(v)
    {
        R = &w;
        out = std::cout.rdbuf(sink.rdbuf());
        w.din = DIN;
        w.samples = [this]() -> const Vs& { return bo.samples(); };
        w.observations = [this]() -> const Vs& { return bo.observations(); };
        sferes::script() = [this](size_t d) {
            mc::check(d == DIN, "genome-size");
            models("decision");
            w.generations++;
            w.front.clear();
            std::vector<std::vector<float>> pop;
            for (int i = 0; i < w.pop; ++i) {
                std::vector<float> g;
                for (size_t j = 0; j < d; ++j)
                    g.push_back(w.iter >= w.budget ? values[(i + j) % values.size()] : mc::pick(values)); // (no decision follows the last one)
                pop.push_back(g);
            }
            rand_choice = w.iter >= w.budget ? 0 : mc::choose(w.pop);
            return pop;
        };
        sferes::listener() = [this](const std::vector<float>& p, const std::vector<float>& objs, bool on_front) {
            Indiv i;
            i.x.resize(p.size());
            for (size_t j = 0; j < p.size(); ++j)
                i.x[j] = p[j];
            mc::check((int)objs.size() == w.nobj, "fitness-size");
            for (int k = 0; k < w.nobj; ++k) {
                ref::GP g = truth(k);
                double mx = w.Y[0][k];
                for (auto& y : w.Y)
                    mx = std::max(mx, y[k]);
                double e = std::min((double)g.mu(i.x)[0], mx);
                mc::check(std::fabs(objs[k] - e) < 1e-5, "fitness", mc::fmt("objective %d of %s is %g, the model predicts %g (best observation %g)", k, zoo::str(i.x).c_str(), objs[k], (double)g.mu(i.x)[0], mx));
                i.objs.push_back(e);
            }
            if (on_front)
                w.front.push_back(i);
        };
    }
    ~Sys()
    {
        std::cout.rdbuf(out);
        R = nullptr;
    }
    void models(const char* where)
    {
        auto& ms = bo.models();
        mc::check((int)ms.size() == w.nobj, mc::fmt("%s-one-model-per-objective", where));
        for (int k = 0; k < w.nobj; ++k) {
            Vs y;
            for (auto& v : w.Y)
                y.push_back(VectorXd::Constant(1, v[k]));
            mc::check(same(ms[k].samples(), w.X) && same(ms[k].observations(), y), mc::fmt("%s-model-data", where), mc::fmt("objective %d: %d samples of %zu", k, ms[k].nb_samples(), w.X.size()));
        }
    }
    void run(bool reset, int budget, int n_init)
    {
        mc::note(mc::fmt("optimize(%s, %d, %d initial)", reset ? "reset" : "resume", budget, n_init));
        EP::stop_maxiterations::set_iterations(budget);
        bool fresh = reset || !initialised;
        if (reset) {
            w.X.clear();
            w.Y.clear();
            total = 0;
        }
        w.inits = w.iter = w.stats = w.generations = 0;
        w.n_init = n_init;
        w.budget = budget;
        size_t before = w.X.size();
        bool failed = false;
        try {
            bo.optimize(fun, reset);
        }
        catch (limbo::EvaluationError&) {
            failed = true;
        }
        mc::op();
        mc::check(same(bo.samples(), w.X) && same(bo.observations(), w.Y), "record", "after the run");
        mc::check(failed == (w.fail_at >= 0 && w.evals > w.fail_at), "failure-reported");
        if (failed) {
            initialised = initialised && !reset;
            if (!w.in_init)
                initialised = true;
            total += w.stats;
            w.in_init = false;
            w.fail_at = -1;
            return;
        }
        initialised = true;
        mc::check(w.inits == (fresh ? 1 : 0), "initialisation-count");
        int n = (int)w.X.size() - (int)before - (fresh ? n_init : 0);
        bool first = before == 0 && (!fresh || n_init == 0);
        mc::check(n == std::max(budget, first ? 1 : 0) && n == w.iter && n == w.stats, "iterations", mc::fmt("%d evaluations for a budget of %d", n, budget));
        total += n;
        mc::check(bo.total_iterations() == total && bo.current_iteration() == n, "counters");
        models("end");
        if (w.generations)
            front_is(bo, w.front);
        // the Pareto set of the record
        std::vector<int> nd;
        for (size_t i = 0; i < w.Y.size(); ++i) {
            bool dom = false;
            for (auto& y : w.Y)
                dom = dom || ((y.array() >= w.Y[i].array()).all() && (y.array() > w.Y[i].array()).any());
            if (!dom)
                nd.push_back(i);
        }
        auto& pd = bo.pareto_data();
        mc::check(pd.size() == nd.size(), "pareto-set", mc::fmt("%zu points of %zu after the run", pd.size(), nd.size()));
        for (auto& p : pd) {
            bool found = false;
            for (int i : nd)
                found = found || (std::get<0>(p) == w.X[i] && std::get<1>(p) == w.Y[i]);
            mc::check(found, "pareto-set", "not a non-dominated pair");
        }
        uint64_t h = mc::hash_str("e08");
        for (auto& x : w.X)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        mc::state(h);
    }
};
static const std::vector<float> V1 = {0.f, 0.21875f, 0.46875f, 0.625f, 1.f};
template <int DIN>
static void decisions(int n, int pop, const std::vector<float>& values, int patterns)
{
    Sys<DIN> s(values);
    s.w.pattern = mc::choose(patterns);
    s.w.pop = pop;
    int init = 1 + mc::choose(3);
    mc::shard();
    s.run(true, n, init);
}
template <int DIN>
static void calls(int n)
{
    Sys<DIN> s({0.21875f, 0.84375f});
    s.w.pop = 1;
    s.w.pattern = mc::choose(2);
    int fail = mc::choose(7);
    s.w.fail_at = fail - 1;
    for (int i = 0; i < n; ++i) {
        bool reset = mc::flip();
        int budget = mc::choose(3), init = 1 + mc::choose(2);
        if (i == 0)
            mc::shard();
        if (s.w.in_init)
            break;
        s.run(reset, budget, init);
        if (fail && s.w.fail_at < 0 && !s.initialised && s.w.X.empty())
            break;
    }
}
MC_SUITE("decisions_1", [] { decisions<1>(1, mc::tier(4, 5), V1, 7); }, 8);
MC_SUITE("decisions_2", [] { decisions<2>(1, 2, V1, mc::tier(3, 7)); }, 8);
MC_SUITE("sequences", [] { decisions<1>(mc::tier(3, 4), 2, {0.f, 0.46875f, 0.90625f}, 3); }, 8);
MC_SUITE("calls", [] { calls<2>(mc::tier(2, 3)); }, 8);
MC_SUITE("no_initial_sample", [] {
    Sys<2> s({0.21875f, 0.84375f});
    s.w.pop = 1;
    s.run(mc::flip(), mc::choose(4), 0);
    s.run(mc::flip(), mc::choose(3), mc::choose(2));
});
MC_MAIN
