// S01: what the statistics write, against a log of the optimiser's public state taken at the same moments.
#include "mc.hpp"
#include "zoo.hpp"
#include <dirent.h>
#include <memory>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/stat.hpp>
#include <limbo/stat/gp.hpp>
#include <limbo/stat/gp_acquisitions.hpp>
#include <limbo/stat/gp_kernel_hparams.hpp>
#include <limbo/stat/gp_likelihood.hpp>
#include <limbo/stat/gp_mean_hparams.hpp>
#include <limbo/stat/gp_prediction_differences.hpp>
#include <sys/stat.h>
#if PART == 1
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#endif
using Eigen::VectorXd;
struct SP {
    struct bayes_opt_bobase {
        BO_DYN_PARAM(bool, stats_enabled);
        BO_PARAM(bool, bounded, true);
    };
    struct bayes_opt_boptimizer {
        BO_DYN_PARAM(int, hp_period);
    };
    struct bayes_opt_cboptimizer {
        BO_PARAM(bool, bounded, true);
        BO_PARAM(int, hp_period, -1);
    };
    struct bayes_opt_imgpo {
        BO_PARAM(bool, hp_opt, false);
    };
    struct bayes_opt_ehvi {
        BO_PARAM(double, x_ref, -3);
        BO_PARAM(double, y_ref, -3);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct acqui_gpucb {
        BO_PARAM(double, delta, 0.1);
    };
    struct kernel {
        BO_PARAM(double, noise, 0.02);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_exp {
        BO_PARAM(double, sigma_sq, 1.7);
        BO_PARAM(double, l, 0.6);
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0.7);
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 2);
    };
    struct stat_gp {
        BO_DYN_PARAM(int, bins);
    };
};
BO_DECLARE_DYN_PARAM(bool, SP::bayes_opt_bobase, stats_enabled);
BO_DECLARE_DYN_PARAM(int, SP::bayes_opt_boptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, SP::stop_maxiterations, iterations);
BO_DECLARE_DYN_PARAM(int, SP::stat_gp, bins);

typedef std::vector<double> Row;
// expected contents of one file: rows of numbers (after a reset the history starts again below)
struct Log {
    std::vector<Row> rows;
};
struct World {
    int din, dout, n_init = 0, evals = 0, hp_calls = 0;
    int fault = -1; // evaluation that fails
    bool grid = false;
    int iter = 0, total = 0;
    int pattern = 0;
    std::map<std::string, Log> logs;
    std::map<std::string, std::vector<Row>> gp_files;
    std::vector<VectorXd> X, Y; // what was evaluated
};
static World* W;
static Row row(double it, const VectorXd& v)
{
    Row r(1, it);
    r.insert(r.end(), v.data(), v.data() + v.size());
    return r;
}
struct Agg {
    double operator()(const VectorXd& y) const
    {
        double s = 0;
        for (int i = 0; i < y.size(); ++i)
            s += y[i] * (i % 2 ? -0.5 : 1);
        return s;
    }
};
template <int DIN, int DOUT>
struct Fun {
    BO_PARAM(size_t, dim_in, DIN);
    BO_PARAM(size_t, dim_out, DOUT);
    VectorXd operator()(const VectorXd& x) const
    {
        World& w = *W;
        mc::op();
        if (w.evals++ == w.fault)
            throw limbo::EvaluationError();
        VectorXd y = zoo::obs(w.evals + w.pattern, DOUT) * (w.pattern == 2 ? 1e-4 : 1.0);
        w.X.push_back(x);
        w.Y.push_back(y);
        return y;
    }
};
struct Init {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& opt) const
    {
        for (int i = 0; i < W->n_init; ++i)
            opt.eval_and_add(f, zoo::point(i, W->din).cwiseAbs().cwiseMin(1.0));
    }
};
struct Inner {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd&, bool) const
    {
        return zoo::point(W->evals * 3 + W->pattern + 2, W->din).cwiseAbs().cwiseMin(1.0);
    }
};
struct HP {
    template <typename GP>
    void operator()(GP& gp)
    {
        W->hp_calls++;
        gp.kernel_function().set_h_params(zoo::params(W->hp_calls, gp.kernel_function().h_params_size()));
        VectorXd m(gp.mean_function().h_params_size());
        for (int i = 0; i < m.size(); ++i)
            m[i] = 0.3 * W->hp_calls - 0.1 * i;
        gp.mean_function().set_h_params(m);
        gp.recompute(true, true);
    }
};
template <typename BO>
static void nodes(int d, VectorXd& p, const BO& bo, const Agg& a, std::vector<Row>& out)
{
    int b = SP::stat_gp::bins();
    for (int i = 0; i <= b; ++i) {
        p[d] = i / (double)b;
        if (d + 1 < p.size())
            nodes(d + 1, p, bo, a, out);
        else {
            Row r(p.data(), p.data() + p.size());
            VectorXd mu = bo.model().mu(p);
            r.insert(r.end(), mu.data(), mu.data() + mu.size());
            r.push_back(bo.model().sigma(p));
            typename BO::acquisition_function_t acq(bo.model(), W->iter);
            r.push_back(std::get<0>(acq(p, a, false)));
            out.push_back(r);
        }
    }
}
// the truth, taken while the statistics are written (everything comes from public accessors)
struct Truth {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        World& w = *W;
        int t = w.total;
        if (bo.samples().size() != bo.observations().size() || bo.samples().empty())
            mc::fail("record", "samples and observations do not match");
        auto& X = bo.samples();
        auto& Y = bo.observations();
        // what the files must tell is the evaluations made, in order
        size_t n = w.X.size();
        mc::check(X.size() == n && X == w.X && Y == w.Y, "record", "the record is not what was evaluated");
        if (t == 0)
            for (size_t i = 0; i + 1 < n; ++i) {
                w.logs["samples.dat"].rows.push_back(row(-1, w.X[i]));
                w.logs["observations.dat"].rows.push_back(row(-1, w.Y[i]));
                w.logs["aggregated_observations.dat"].rows.push_back({-1, afun(w.Y[i])});
            }
        w.logs["samples.dat"].rows.push_back(row(t, w.X.back()));
        w.logs["observations.dat"].rows.push_back(row(t, w.Y.back()));
        double a = afun(w.Y.back());
        w.logs["aggregated_observations.dat"].rows.push_back({(double)t, a});
        size_t b = 0;
        for (size_t i = 1; i < n; ++i)
            if (afun(w.Y[i]) > afun(w.Y[b]))
                b = i;
        w.logs["best_samples.dat"].rows.push_back(row(t, w.X[b]));
        w.logs["best_observations.dat"].rows.push_back(row(t, w.Y[b]));
        w.logs["best_aggregated_observations.dat"].rows.push_back({(double)t, afun(w.Y[b])});
        auto& m = bo.model();
        typename BO::acquisition_function_t acq(m, w.iter);
        w.logs["gp_acquisitions.dat"].rows.push_back({(double)t, afun(m.mu(w.X.back())), m.sigma(w.X.back()), std::get<0>(acq(w.X.back(), afun, false))});
        double p = afun(m.mu(w.X.back()));
        w.logs["gp_prediction_differences.dat"].rows.push_back({(double)t, p, a, std::abs(p - a)});
        w.logs["gp_kernel_hparams.dat"].rows.push_back(row(t, m.kernel_function().h_params()));
        w.logs["gp_mean_hparams.dat"].rows.push_back(row(t, m.mean_function().h_params()));
        auto copy = m;
        w.logs["gp_likelihood.dat"].rows.push_back({(double)t, m.nb_samples() ? copy.compute_log_lik() : 0.0});
        Row c = row(t, w.X.back());
        c.push_back(a);
        c.push_back(afun(w.Y[b]));
        w.logs["console"].rows.push_back(c);
        if (w.grid) {
            std::vector<Row> out;
            VectorXd q(w.din);
            nodes(0, q, bo, afun, out);
            w.gp_files["gp_" + std::to_string(t) + ".dat"] = out;
        }
        w.iter++;
        w.total++;
        mc::state(mc::hash_str(mc::fmt("%d %d %zu %d", w.iter, w.total, n, w.hp_calls)));
    }
};
struct MaybeGrid : limbo::stat::GP<SP> {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& a)
    {
        if (W->grid)
            limbo::stat::GP<SP>::operator()(bo, a);
    }
};
static bool number(const std::string& s, double& v)
{
    if (s == "nan" || s == "-nan") {
        v = NAN;
        return true;
    }
    char* e;
    v = strtod(s.c_str(), &e);
    return e != s.c_str() && !*e;
}
static void same(const std::string& name, const std::vector<Row>& got, const std::vector<Row>& exp)
{
    for (size_t i = 0; i < got.size() && i < exp.size(); ++i) {
        std::string g, x;
        bool ok = got[i].size() == exp[i].size();
        for (double v : got[i])
            g += mc::fmt("%.6g ", v);
        for (double v : exp[i])
            x += mc::fmt("%.6g ", v);
        for (size_t k = 0; ok && k < exp[i].size(); ++k)
            ok = std::fabs(got[i][k] - exp[i][k]) <= 2e-5 * std::fabs(exp[i][k]) + 1e-9;
        mc::check(ok, "line:" + name, mc::fmt("%s, record %zu: '%s' written, the truth is '%s'", name.c_str(), i, g.c_str(), x.c_str()));
    }
    mc::check(got.size() == exp.size(), "lines:" + name, mc::fmt("%s has %zu records, expected %zu", name.c_str(), got.size(), exp.size()));
}
static std::vector<Row> parse(std::istream& f, const std::string& name)
{
    std::vector<Row> out;
    std::string line, tok;
    bool header = false;
    while (std::getline(f, line)) {
        if (line.empty())
            continue;
        if (line[0] == '#') { // comments only announce the records of a run
            mc::check(!header && (out.empty() || (name != "gp" && !out.back().empty() && out.back()[0] >= 0)), "misplaced-header:" + name, line);
            header = true;
            continue;
        }
        std::stringstream ss(line);
        Row r;
        while (ss >> tok) {
            double v;
            mc::check(number(tok, v), "not-a-number:" + name, line);
            r.push_back(v);
        }
        mc::check(!header || out.empty() || r.empty() || r[0] <= 0, "misplaced-header:" + name, "before " + line);
        header = false;
        out.push_back(r);
    }
    return out;
}
static std::vector<Row> parse_console(const std::string& s)
{
    std::vector<Row> out;
    std::stringstream f(s);
    std::string line, tok;
    while (std::getline(f, line)) {
        for (const char* w : {"new point:", "value:", "best:"}) {
            size_t p = line.find(w);
            if (p != std::string::npos)
                for (size_t k = 0; k < strlen(w); ++k)
                    line[p + k] = ' ';
        }
        std::stringstream ss(line);
        Row r;
        double v;
        while (ss >> tok)
            if (number(tok, v))
                r.push_back(v);
        if (!r.empty())
            out.push_back(r);
    }
    return out;
}
static std::vector<std::string> listing(const std::string& d)
{
    std::vector<std::string> r;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p))
            if (e->d_name[0] != '.')
                r.push_back(e->d_name);
        closedir(p);
    }
    return r;
}

template <int DIN, int DOUT, template <typename, typename> class Acqui, template <typename> class Mean>
struct Sys {
    typedef limbo::kernel::Exp<SP> K;
    typedef Mean<SP> M;
    typedef limbo::model::GP<SP, K, M, HP> Model;
    typedef Acqui<SP, Model> A;
    typedef boost::fusion::vector<limbo::stat::Samples<SP>, limbo::stat::Observations<SP>, limbo::stat::AggregatedObservations<SP>,
        limbo::stat::BestAggregatedObservations<SP>, limbo::stat::GPLikelihood<SP>,
        Truth, limbo::stat::ConsoleSummary<SP>, limbo::stat::BestSamples<SP>, limbo::stat::BestObservations<SP>, limbo::stat::GPAcquisitions<SP>, limbo::stat::GPPredictionDifferences<SP>,
        limbo::stat::GPKernelHParams<SP>, limbo::stat::GPMeanHParams<SP>, MaybeGrid>
        S;
    typedef limbo::bayes_opt::BOptimizer<SP, limbo::modelfun<Model>, limbo::initfun<Init>, limbo::acquifun<A>, limbo::acquiopt<Inner>, limbo::statsfun<S>> BO;
    struct Call {
        bool reset;
        int budget, n_init, fault; // fault: evaluation of this call that fails (-1: none)
    };
    // one optimiser at work, with the log of what it did
    struct Live {
        World w;
        std::ostringstream console;
        std::string dir;
        std::unique_ptr<BO> bo;
        Live(int pattern, bool grid)
        {
            w.din = DIN;
            w.dout = DOUT;
            w.pattern = pattern;
            w.grid = grid;
            bo.reset(new BO);
            dir = bo->res_dir();
        }
        void call(const Call& c)
        {
            struct Scope {
                std::streambuf* b;
                ~Scope()
                {
                    std::cout.rdbuf(b);
                    W = nullptr;
                }
            } scope{std::cout.rdbuf(console.rdbuf())};
            W = &w;
            SP::stop_maxiterations::set_iterations(c.budget);
            w.n_init = c.n_init;
            w.iter = 0;
            w.fault = c.fault < 0 ? -1 : w.evals + c.fault;
            if (c.reset) {
                w.X.clear();
                w.Y.clear();
                w.total = 0;
            }
            try {
                bo->optimize(Fun<DIN, DOUT>(), Agg(), c.reset);
                mc::check(w.iter == c.budget, "statistics-per-iteration", mc::fmt("%d in a run of %d", w.iter, c.budget));
            }
            catch (limbo::EvaluationError&) {
                mc::count("interrupted_runs");
            }
            mc::op();
        }
        // the optimiser is gone: everything must be on disk
        void verify()
        {
            bo.reset();
            for (auto& l : w.logs)
                if (l.first != "console") {
                    std::ifstream f(dir + "/" + l.first);
                    mc::check(f.good(), "file:" + l.first, "not written");
                    same(l.first, parse(f, l.first), l.second.rows);
                }
            same("console", parse_console(console.str()), w.logs["console"].rows);
            for (auto& g : w.gp_files) {
                std::ifstream f(dir + "/" + g.first);
                mc::check(f.good(), "file:gp", g.first + " not written");
                std::vector<Row> got = parse(f, "gp"), exp = g.second;
                auto by_node = [](const Row& a, const Row& b) {
                    for (int i = 0; i < DIN && i < (int)a.size() && i < (int)b.size(); ++i)
                        if (std::fabs(a[i] - b[i]) > 1e-4)
                            return a[i] < b[i];
                    return false;
                };
                std::stable_sort(got.begin(), got.end(), by_node);
                std::stable_sort(exp.begin(), exp.end(), by_node);
                same("gp", got, exp);
            }
            size_t n = 0;
            for (auto& f : listing(dir))
                n += f.size() > 7 && f.substr(0, 3) == "gp_" && isdigit(f[3]);
            mc::check(n == w.gp_files.size(), "gp-files");
        }
    };
    static void clean() // left by earlier executions (the working directory is the suite's own)
    {
        for (auto& d : listing(".")) {
            for (auto& f : listing(d))
                unlink((d + "/" + f).c_str());
            rmdir(d.c_str());
        }
    }
    static void say(const Call& c, const char* who = "")
    {
        mc::note(mc::fmt("%soptimize(%s, %d iterations, %d initial points%s)", who, c.reset ? "reset" : "resume", c.budget, c.n_init, c.fault >= 0 ? mc::fmt(", evaluation %d fails", c.fault).c_str() : ""));
    }
    // statistics disabled: the same runs, and nothing is written anywhere
    static void silent(const std::vector<Call>& calls, int pattern)
    {
        clean();
        SP::bayes_opt_bobase::set_stats_enabled(false);
        Live l(pattern, true);
        SP::stat_gp::set_bins(2);
        for (auto& c : calls) {
            say(c);
            l.call(c);
        }
        l.bo.reset();
        mc::check(listing(".").empty(), "disabled:files", "statistics are disabled, yet there is " + (listing(".").empty() ? "" : listing(".")[0]));
        mc::check(parse_console(l.console.str()).empty(), "disabled:console", l.console.str());
    }
    static void run(const std::vector<Call>& calls, int pattern, bool grid)
    {
        clean();
        SP::bayes_opt_bobase::set_stats_enabled(true);
        Live l(pattern, grid);
        for (auto& c : calls) {
            say(c);
            l.call(c);
        }
        l.verify();
    }
};
template <int DIN, int DOUT, template <typename, typename> class Acqui, template <typename> class Mean>
static void calls(int n, const std::vector<int>& budgets, int inits, bool faults, int maxfault = 4, bool silent = false)
{
    typedef Sys<DIN, DOUT, Acqui, Mean> S;
    std::vector<typename S::Call> c;
    SP::bayes_opt_boptimizer::set_hp_period(mc::flip() ? 2 : -1);
    int pattern = mc::choose(3);
    int left = faults ? 1 : 0;
    for (int k = 0; k < n; ++k) {
        typename S::Call x;
        x.reset = k == 0 ? true : mc::flip();
        x.budget = mc::pick(budgets);
        x.n_init = x.reset ? mc::choose(inits + 1) : 1;
        x.fault = -1;
        if (left && mc::flip()) {
            x.fault = mc::choose(maxfault);
            left--;
        }
        c.push_back(x);
        if (k == 0)
            mc::shard();
    }
    silent ? S::silent(c, pattern) : S::run(c, pattern, false);
}
using limbo::acqui::GP_UCB;
using limbo::acqui::UCB;
template <typename Pm>
using MConst = limbo::mean::Constant<Pm>;
template <typename Pm>
using MData = limbo::mean::Data<Pm>;
template <typename Pm>
using MArd = limbo::mean::FunctionARD<Pm, limbo::mean::Data<Pm>>;

#if PART == 0
MC_SUITE("calls_1_1", [] { calls<1, 1, GP_UCB, MConst>(mc::tier(3, 4), {0, 1, 3}, 2, false); }, 24);
MC_SUITE("calls_2_2", [] { calls<2, 2, GP_UCB, MArd>(mc::tier(3, 4), {0, 2, 5}, 2, false); }, 24);
MC_SUITE("calls_3_1", [] { calls<3, 1, UCB, MData>(mc::tier(3, 4), {1, 2}, 3, false); }, 24);
MC_SUITE("faults_2_1", [] { calls<2, 1, UCB, MConst>(mc::tier(3, 4), {0, 1, 3}, 2, true); }, 24);
MC_SUITE("disabled_1_1", [] { calls<1, 1, GP_UCB, MConst>(mc::tier(2, 3), {0, 1, 3}, 2, true, 4, true); }, 8);
MC_SUITE("disabled_2_2", [] { calls<2, 2, UCB, MArd>(mc::tier(2, 3), {0, 2}, 2, false, 4, true); }, 8);
// several optimisers alive at the same time, or one after the other, in one process
template <int DIN, int DOUT>
static void several(int runs, int n)
{
    typedef Sys<DIN, DOUT, GP_UCB, MConst> S;
    SP::bayes_opt_boptimizer::set_hp_period(-1);
    S::clean();
    SP::bayes_opt_bobase::set_stats_enabled(true);
    std::vector<std::unique_ptr<typename S::Live>> l(runs);
    std::vector<int> state(runs, 0); // 0: not created, 1: alive, 2: destroyed
    for (int k = 0; k < n; ++k) {
        // destroying one ends it; creating the next is the first use of it (in order: they are alike)
        int created = 0;
        for (int i = 0; i < runs; ++i)
            created += state[i] > 0;
        std::vector<int> use;
        for (int i = 0; i < runs; ++i)
            if (state[i] == 1 || (state[i] == 0 && i == created))
                use.push_back(i);
        if (use.empty())
            break;
        int i = mc::pick(use);
        std::string who = mc::fmt("%c.", 'a' + i);
        if (state[i] == 0) {
            mc::note(who + "created");
            l[i].reset(new typename S::Live(i, false));
            for (int j = 0; j < i; ++j)
                mc::check(l[j]->dir != l[i]->dir, "shared-directory", mc::fmt("two optimisers write their statistics in %s", l[i]->dir.c_str()));
            state[i] = 1;
            continue;
        }
        typename S::Call c;
        c.reset = mc::flip();
        c.budget = 1 + mc::choose(2);
        c.n_init = 1;
        c.fault = -1;
        S::say(c, who.c_str());
        l[i]->call(c);
        if (k == 1)
            mc::shard();
        if (mc::flip()) {
            mc::note(who + "destroyed");
            l[i]->bo.reset();
            state[i] = 2;
        }
    }
    for (auto& x : l)
        if (x)
            x->verify();
}
MC_SUITE("two_runs", [] { several<1, 1>(2, mc::tier(6, 7)); }, 8);
MC_SUITE("three_runs", [] { several<2, 2>(3, mc::tier(5, 6)); }, 8);
MC_SUITE("long", [] {
    SP::bayes_opt_boptimizer::set_hp_period(mc::choose(4) - 1);
    int n = mc::tier(14, 30), cut = mc::choose(n), i0 = mc::choose(3) * 4, pattern = mc::choose(3);
    mc::shard();
    typedef Sys<2, 2, GP_UCB, MConst> S;
    S::run({{true, cut, i0, -1}, {false, n - cut, 0, -1}, {false, 2, 0, -1}}, pattern, false);
}, 8);
// the model over the whole grid, one file per iteration
template <int DIN, int DOUT>
static void grids(int maxbins)
{
    typedef Sys<DIN, DOUT, GP_UCB, MConst> S;
    SP::bayes_opt_boptimizer::set_hp_period(-1);
    SP::stat_gp::set_bins(1 + mc::choose(maxbins));
    int i0 = mc::choose(2), b = 1 + mc::choose(2), r = mc::choose(2);
    mc::shard();
    S::run({{true, b, i0, -1}, {(bool)r, 1, 1, -1}}, 0, true);
}
MC_SUITE("gp_grid_1", [] { grids<1, 1>(mc::tier(60, 150)); }, 8);
MC_SUITE("gp_grid_2", [] { grids<2, 2>(mc::tier(13, 25)); }, 8);
MC_SUITE("gp_grid_3", [] { grids<3, 1>(mc::tier(4, 8)); }, 8);
#else
// ---------------------------------------------------------------- the other optimisers
struct OWorld : World {
    bool constrained = false;
    size_t best(const std::function<double(const VectorXd&)>& afun) const
    {
        bool any = false;
        for (auto& y : Y)
            any = any || !constrained || y[1] > 0;
        int b = -1;
        for (size_t i = 0; i < Y.size(); ++i)
            if (!any || !constrained || Y[i][1] > 0)
                if (b < 0 || afun(Y[i]) > afun(Y[b]))
                    b = i;
        return b;
    }
};
template <int BEST>
struct OTruth {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        OWorld& w = *static_cast<OWorld*>(W);
        int t = w.total;
        size_t n = w.X.size();
        mc::check(bo.samples() == w.X && bo.observations() == w.Y, "record", "the record is not what was evaluated");
        if (t == 0)
            for (size_t i = 0; i + 1 < n; ++i) {
                w.logs["samples.dat"].rows.push_back(row(-1, w.X[i]));
                w.logs["observations.dat"].rows.push_back(row(-1, w.Y[i]));
                w.logs["aggregated_observations.dat"].rows.push_back({-1, afun(w.Y[i])});
            }
        w.logs["samples.dat"].rows.push_back(row(t, w.X.back()));
        w.logs["observations.dat"].rows.push_back(row(t, w.Y.back()));
        double a = afun(w.Y.back());
        w.logs["aggregated_observations.dat"].rows.push_back({(double)t, a});
        if (BEST) {
            size_t b = w.best(afun);
            VectorXd y = w.constrained ? VectorXd(w.Y[b].head(1)) : w.Y[b];
            w.logs["best_samples.dat"].rows.push_back(row(t, w.X[b]));
            w.logs["best_observations.dat"].rows.push_back(row(t, y));
            w.logs["best_aggregated_observations.dat"].rows.push_back({(double)t, afun(y)});
            Row c = row(t, w.X.back());
            c.push_back(a);
            c.push_back(afun(y));
            w.logs["console"].rows.push_back(c);
        }
        w.iter++;
        w.total++;
        mc::state(mc::hash_str(mc::fmt("%d %d %zu", w.iter, w.total, n)));
    }
};
typedef limbo::model::GP<SP, limbo::kernel::Exp<SP>, limbo::mean::Data<SP>> OModel;
struct OFun2 : Fun<2, 2> { // objective and constraint, distinct values, of both signs
    BO_PARAM(size_t, dim_out, 1);
    static size_t nb_constraints() { return 1; }
};
struct OAcq { // promises more than was seen: the partition-tree optimiser evaluates everything it looks at
    OAcq(const OModel&, size_t) {}
    template <typename A>
    double operator()(const VectorXd&, const A&) const
    {
        return 1e3;
    }
};
struct CAcq : OAcq {
    CAcq(const OModel& m, const OModel&, int i) : OAcq(m, i) {}
    size_t dim_in() const { return 2; }
    size_t dim_out() const { return 1; }
    template <typename A>
    limbo::opt::eval_t operator()(const VectorXd&, const A&, bool) const
    {
        return limbo::opt::no_grad(0);
    }
};
typedef boost::fusion::vector<limbo::stat::Samples<SP>, limbo::stat::Observations<SP>, limbo::stat::AggregatedObservations<SP>,
    limbo::stat::BestAggregatedObservations<SP>, OTruth<1>, limbo::stat::ConsoleSummary<SP>, limbo::stat::BestSamples<SP>, limbo::stat::BestObservations<SP>>
    OStats;
typedef boost::fusion::vector<limbo::stat::Samples<SP>, OTruth<0>, limbo::stat::Observations<SP>, limbo::stat::AggregatedObservations<SP>> EStats;
struct Constrained {
    typedef limbo::experimental::bayes_opt::CBOptimizer<SP, limbo::modelfun<OModel>, limbo::experimental::constraint_modelfun<OModel>, limbo::initfun<Init>, limbo::acquifun<CAcq>, limbo::acquiopt<Inner>, limbo::statsfun<OStats>> BO;
    static const bool constrained = true, exact = true, fail = true;
    static void run(BO& bo, bool reset) { bo.optimize(OFun2(), limbo::FirstElem(), reset); }
};
struct Partition {
    typedef limbo::bayes_opt::experimental::IMGPO<SP, limbo::modelfun<OModel>, limbo::initfun<Init>, limbo::acquifun<OAcq>, limbo::statsfun<OStats>> BO;
    static const bool constrained = false, exact = false, fail = false;
    static void run(BO& bo, bool reset) { bo.optimize(Fun<2, 2>(), Agg(), reset); }
};
struct Volume {
    typedef limbo::experimental::bayes_opt::Ehvi<SP, limbo::modelfun<OModel>, limbo::initfun<Init>, limbo::acquiopt<Inner>, limbo::statsfun<EStats>> BO;
    static const bool constrained = false, exact = true, fail = true;
    static void run(BO& bo, bool reset) { bo.optimize(Fun<2, 2>(), reset); }
};
template <typename K>
static void others(int n, const std::vector<int>& budgets, int inits)
{
    for (auto& d : listing(".")) {
        for (auto& f : listing(d))
            unlink((d + "/" + f).c_str());
        rmdir(d.c_str());
    }
    bool enabled = mc::choose(4) != 3;
    SP::bayes_opt_bobase::set_stats_enabled(enabled);
    OWorld w;
    w.din = w.dout = 2;
    w.constrained = K::constrained;
    w.pattern = mc::choose(2);
    std::ostringstream console;
    std::string dir;
    {
        typename K::BO bo;
        dir = bo.res_dir();
        struct Scope {
            std::streambuf* b;
            ~Scope()
            {
                std::cout.rdbuf(b);
                W = nullptr;
            }
        } scope{std::cout.rdbuf(console.rdbuf())};
        W = &w;
        bool failed = false;
        for (int k = 0; k < n; ++k) {
            bool reset = k == 0 || mc::flip();
            int budget = mc::pick(budgets), i0 = reset ? 1 + mc::choose(inits) : 1;
            int fault = K::fail && !failed && mc::flip() ? mc::choose(4) : -1;
            if (k == 0)
                mc::shard();
            mc::note(mc::fmt("optimize(%s, %d iterations, %d initial points%s)", reset ? "reset" : "resume", budget, i0, fault >= 0 ? mc::fmt(", evaluation %d fails", fault).c_str() : ""));
            SP::stop_maxiterations::set_iterations(budget);
            w.n_init = i0;
            w.iter = 0;
            w.fault = fault < 0 ? -1 : w.evals + fault;
            if (reset) {
                w.X.clear();
                w.Y.clear();
                w.total = 0;
            }
            size_t before = w.X.size();
            try {
                K::run(bo, reset);
                if (K::exact)
                    mc::check(w.iter == budget, "statistics-per-iteration", mc::fmt("%d in a run of %d", w.iter, budget));
                int decided = (int)w.X.size() - (int)before - (reset ? i0 : 0); // (plus the initialisation a failure cut short)
                mc::check(failed ? w.iter <= decided : w.iter == decided, "statistics-per-evaluation", mc::fmt("%d for %d evaluations decided", w.iter, decided));
            }
            catch (limbo::EvaluationError&) {
                mc::count("interrupted_runs");
                failed = true;
            }
            mc::op();
        }
    }
    if (!enabled) {
        mc::check(listing(".").empty() && parse_console(console.str()).empty(), "disabled:files", "statistics are disabled");
        return;
    }
    for (auto& l : w.logs)
        if (l.first != "console") {
            std::ifstream f(dir + "/" + l.first);
            mc::check(f.good(), "file:" + l.first, "not written");
            same(l.first, parse(f, l.first), l.second.rows);
        }
    same("console", parse_console(console.str()), w.logs["console"].rows);
}
MC_SUITE("constrained", [] { others<Constrained>(mc::tier(3, 4), {0, 1, 3}, 2); }, 8);
MC_SUITE("partition", [] { others<Partition>(mc::tier(3, 4), {0, 1, 4, 7}, 2); }, 8);
MC_SUITE("volume", [] { others<Volume>(mc::tier(3, 4), {0, 1, 3}, 2); }, 8);
#endif
MC_MAIN
