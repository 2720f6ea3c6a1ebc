// E06: the partition-tree optimiser (IMGPO) against a model of its algorithm, observations enumerated.
#include "mc.hpp"
#include "ref.hpp"
#include "zoo.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/init/no_init.hpp>
using Eigen::VectorXd;
typedef std::vector<VectorXd> Vs;
struct IP {
    struct bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
    };
    struct bayes_opt_imgpo {
        BO_DYN_PARAM(bool, hp_opt);
    };
    struct acqui_ucb_imgpo {
        BO_PARAM(double, nu, 0.05);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct kernel {
        BO_PARAM(double, noise, 0.001);
        BO_PARAM(bool, optimize_noise, false);
    };
    struct kernel_maternfivehalves {
        BO_PARAM(double, sigma_sq, 1);
        BO_PARAM(double, l, 0.25);
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0);
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 0);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.5);
    };
};
BO_DECLARE_DYN_PARAM(bool, IP::bayes_opt_imgpo, hp_opt);
BO_DECLARE_DYN_PARAM(int, IP::stop_maxiterations, iterations);
struct HP;
typedef limbo::kernel::MaternFiveHalves<IP> K;
typedef limbo::mean::Constant<IP> Mean;
typedef limbo::model::GP<IP, K, Mean, HP> G;

static bool same(const Vs& a, const Vs& b) { return a == b; }
static std::string show(const Vs& v)
{
    std::string s;
    for (auto& x : v)
        s += zoo::str(x);
    return s;
}
struct Agg {
    int kind = 0;
    double operator()(const VectorXd& y) const { return kind == 0 ? y[0] : kind == 1 ? -y[0] : y[0] - 2 * y[1]; }
};
struct Run {
    int din, dout;
    Vs X, Y;           // everything evaluated since the last reset
    size_t base = 0;   // ... before the tree (initial design)
    Vs expected;       // the algorithm's evaluations, in order
    int n_init = 0, inits = 0, evals = 0, hp_calls = 0, run_evals = 0;
    bool in_init = false, stopped = false, undecided = false;
    Agg agg;
    std::function<VectorXd(int, const VectorXd&)> value;
    std::function<const Vs&()> samples, observations;
    std::map<std::vector<long long>, size_t> looked; // points looked at, in order
    void look(const VectorXd& x)
    {
        looked.emplace(key(x), looked.size());
    }
    static std::vector<long long> key(const VectorXd& x)
    {
        std::vector<long long> k;
        for (int i = 0; i < x.size(); ++i)
            k.push_back(std::llround(x[i] * 1e8));
        return k;
    }
    void rec(const char* where)
    {
        mc::check(same(samples(), X) && same(observations(), Y), "record", mc::fmt("%s: samples %s observations %s, evaluated %s with %s", where, show(samples()).c_str(), show(observations()).c_str(), show(X).c_str(), show(Y).c_str()));
    }
};
static Run* R;
struct HP {
    template <typename GP>
    void operator()(GP& gp)
    {
        R->hp_calls++;
        mc::check(same(gp.samples(), R->X) && same(gp.observations(), R->Y), "hyper-parameters-on-stale-model", mc::fmt("%d points, %zu evaluated", gp.nb_samples(), R->X.size()));
        gp.recompute(false);
    }
};
struct Init {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& opt) const
    {
        R->inits++;
        R->in_init = true;
        for (int i = 0; i < R->n_init; ++i)
            opt.eval_and_add(f, VectorXd::Constant(F::dim_in(), (2 * i + 1) / 16.));
        R->in_init = false;
        R->base = R->X.size();
    }
};
// a centre of a ternary subdivision (the runs here stay below depth 25)
static void is_centre(const VectorXd& x)
{
    for (int i = 0; i < x.size(); ++i) {
        double p = 1;
        int m = 0;
        for (; m <= 25; ++m, p *= 3) {
            double k = x[i] * p - 0.5;
            if (std::fabs(k - std::round(k)) < 1e-9 + 4e-16 * (m + 1) * p && k > -0.5 && k < p - 0.5)
                break;
        }
        if (m > 25)
            mc::fail("not-a-centre", mc::fmt("%.12g is not a centre of a ternary subdivision (%s)", x[i], zoo::str(x).c_str()));
    }
}
template <int DIN, int DOUT>
struct Fun {
    BO_PARAM(size_t, dim_in, DIN);
    BO_PARAM(size_t, dim_out, DOUT);
    VectorXd operator()(const VectorXd& x) const
    {
        Run& w = *R;
        mc::op();
        mc::check(x.size() == DIN && x.minCoeff() >= 0 && x.maxCoeff() <= 1, "argument-in-domain", zoo::str(x));
        w.rec("when the function is called");
        if (!w.in_init) {
            mc::check(!w.stopped, "evaluation-after-stop", "the function is evaluated although the stopping criterion holds");
            is_centre(x);
            for (size_t i = w.base; i < w.X.size(); ++i)
                mc::check((w.X[i] - x).cwiseAbs().maxCoeff() > 1e-13, "same-centre-twice", mc::fmt("%s evaluated again", zoo::str(x).c_str()));
            w.look(x);
            w.run_evals++;
        }
        w.X.push_back(x);
        w.Y.push_back(w.value(w.evals++, x));
        return w.Y.back();
    }
};
template <typename Pm, typename Model>
struct Acq {
    const Model& m;
    limbo::acqui::experimental::UCB_IMGPO<Pm, Model> u;
    size_t M;
    Acq(const Model& model, size_t M_ = 1) : m(model), u(model, M_), M(M_) {}
    size_t dim_in() const { return m.dim_in(); }
    size_t dim_out() const { return m.dim_out(); }
    template <typename A>
    double operator()(const VectorXd& v, const A& afun) const
    {
        mc::check(same(m.samples(), R->X) && same(m.observations(), R->Y), "decision-on-stale-model", mc::fmt("model with %d points, %zu evaluated", m.nb_samples(), R->X.size()));
        mc::check(v.size() == R->din && v.minCoeff() >= 0 && v.maxCoeff() <= 1, "query-in-domain");
        is_centre(v);
        R->look(v);
        double r = u(v, afun);
        auto q = m.query(v);
        double e = afun(std::get<0>(q)) + (std::sqrt(2 * std::log(M_PI * M_PI * M * M / (12 * 0.05))) + 0.2) * std::sqrt(std::get<1>(q));
        mc::check(std::fabs(r - e) <= 1e-9 * (1 + std::fabs(e)), "upper-bound-value", mc::fmt("%.12g instead of %.12g (M = %zu)", r, e, M));
        mc::op();
        return r;
    }
};
struct Stop {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A&)
    {
        Run& w = *R;
        w.rec("when the stopping criterion is checked");
        mc::check(bo.current_iteration() == w.run_evals, "current-iteration", mc::fmt("%d after %d evaluations", bo.current_iteration(), w.run_evals));
        w.stopped = bo.current_iteration() >= IP::stop_maxiterations::iterations();
        return w.stopped;
    }
};
// ---------------------------------------------------------------- the algorithm
// Bayesian Optimization with Exponential Convergence, Algorithm 1, with the constants of the implementation
struct Ambiguous {};
struct Tree {
    struct Cell {
        VectorXd lo, hi;
        double v;
        bool evaluated, leaf;
        VectorXd c() const { return (lo + hi) / 2; }
    };
    std::vector<std::vector<Cell>> level;
    int dim = 1;
    Run* w;
    // the algorithm runs on the record of a past run: evaluation number i must be of the point asked
    Vs X, Y; // data so far (initial design first)
    size_t pos = 0, limit = 0;
    std::vector<VectorXd> asked;
    bool over = false;
    static bool above(double a, double b)
    {
        if (std::fabs(a - b) < 1e-9)
            throw Ambiguous();
        return a > b;
    }
    double best() const
    {
        double m = -INFINITY;
        for (auto& y : Y)
            m = std::max(m, w->agg(y));
        return m;
    }
    struct Exhausted {};
    double evaluate(const VectorXd& x)
    {
        mc::check(pos < w->X.size(), "fewer-evaluations", mc::fmt("%s is not evaluated (%zu evaluations)", zoo::str(x).c_str(), w->X.size()));
        mc::check((w->X[pos] - x).cwiseAbs().maxCoeff() < 1e-9, "evaluation-sequence", mc::fmt("evaluation %zu is at %s, the algorithm asks for %s; samples %s observations %s", pos, zoo::str(w->X[pos]).c_str(), zoo::str(x).c_str(), show(w->X).c_str(), show(w->Y).c_str()));
        X.push_back(w->X[pos]);
        Y.push_back(w->Y[pos]);
        pos++;
        mc::count("decisions compared with the algorithm");
        return w->agg(Y.back());
    }
    double ucb(const VectorXd& x, size_t M, VectorXd* mu = nullptr)
    {
        static thread_local Vs sx, sy;
        static thread_local std::unique_ptr<G> g;
        if (!g || sx != X || sy != Y) {
            g.reset(new G(dim, w->dout));
            g->compute(X, Y);
            sx = X;
            sy = Y;
        }
        auto q = g->query(x);
        double k = (std::sqrt(2 * std::log(M_PI * M_PI * M * M / (12 * 0.05))) + 0.2) * std::sqrt(std::get<1>(q));
        if (mu)
            *mu = (std::get<0>(q).array() + k).matrix();
        return w->agg(std::get<0>(q)) + k;
    }
    std::vector<Cell> split(const Cell& c)
    {
        // the longest side; among equal ones any will do: the one the implementation looked along first
        VectorXd side = c.hi - c.lo;
        double longest = side.maxCoeff();
        if (longest < 3e-8)
            throw Ambiguous(); // too deep to tell cells apart
        int d = -1;
        size_t first = 0;
        for (int i = 0; i < dim; ++i) {
            if (side[i] < longest * (1 - 1e-6))
                continue;
            VectorXd l = c.c();
            l[i] -= side[i] / 3;
            auto f = w->looked.find(Run::key(l));
            size_t when = f == w->looked.end() ? SIZE_MAX : f->second;
            if (d < 0 || when < first) {
                d = i;
                first = when;
            }
        }
        double a = c.lo[d], b = c.hi[d];
        std::vector<Cell> r(3, c);
        r[0].hi[d] = r[2].lo[d] = (2 * a + b) / 3;
        r[1].lo[d] = r[2].hi[d] = (a + 2 * b) / 3;
        return r;
    }
    // runs until the budget; returns the number of evaluations
    int run(int budget, bool fresh)
    {
        size_t start = pos;
        double LB;
        if (fresh) {
            level.assign(1, {});
            Cell c;
            c.lo = VectorXd::Zero(dim);
            c.hi = VectorXd::Ones(dim);
            c.v = evaluate(c.c());
            c.evaluated = c.leaf = true;
            level[0].push_back(c);
            LB = c.v;
        }
        else
            LB = best();
        size_t M = 1;
        double XI = 1, old = LB;
        while ((int)(pos - start) < budget) {
            size_t n = level.size();
            std::vector<int> pick(n, -1);
            double vmax = -INFINITY;
            for (size_t h = 0; h < n; ++h) {
                while (true) {
                    int b = -1;
                    for (size_t i = 0; i < level[h].size(); ++i)
                        if (level[h][i].leaf && (b < 0 || above(level[h][i].v, level[h][b].v)))
                            b = i;
                    if (b < 0 || (vmax > -INFINITY && !above(level[h][b].v, vmax))) {
                        pick[h] = -1;
                        break;
                    }
                    pick[h] = b;
                    if (level[h][b].evaluated) {
                        vmax = level[h][b].v;
                        break;
                    }
                    level[h][b].v = evaluate(level[h][b].c());
                    level[h][b].evaluated = true;
                    mc::count("predicted cells evaluated");
                }
            }
            std::vector<double> bv(n, -INFINITY);
            for (size_t h = 0; h < n; ++h)
                if (pick[h] >= 0)
                    bv[h] = level[h][pick[h]].v;
            for (size_t h = 0; h < n; ++h) {
                if (pick[h] < 0)
                    continue;
                size_t reach = std::min<size_t>(std::ceil(XI), 4), xi = 0;
                for (size_t k = 1; k <= reach && h + k < n; ++k)
                    if (pick[h + k] >= 0) {
                        xi = k;
                        break;
                    }
                if (!xi)
                    continue;
                double z = -INFINITY;
                size_t M2 = M;
                std::vector<Cell> cur = {level[h][pick[h]]};
                bool enough = false;
                for (size_t k = 0; k < xi && !enough; ++k) {
                    std::vector<Cell> nx;
                    for (auto& c : cur) {
                        auto s = split(c);
                        z = std::max(z, ucb(s[0].c(), M2++));
                        z = std::max(z, ucb(s[1].c(), M2++));
                        if (!above(bv[h + xi], z)) {
                            enough = true;
                            break;
                        }
                        nx.insert(nx.end(), s.begin(), s.end());
                    }
                    cur = nx;
                }
                if (!enough) {
                    M = M2;
                    pick[h] = -1;
                    mc::count("expansions postponed");
                }
            }
            double b2 = -INFINITY;
            for (size_t h = 0; h < n; ++h) {
                if (pick[h] < 0 || (b2 > -INFINITY && !above(bv[h], b2)))
                    continue;
                if (level.size() == h + 1)
                    level.emplace_back();
                Cell p = level[h][pick[h]];
                level[h][pick[h]].leaf = false;
                auto s = split(p);
                for (int k = 0; k < 2; ++k) {
                    VectorXd up;
                    double u = ucb(s[k].c(), M, &up);
                    if (!above(u - LB, 1e-6)) {
                        M++;
                        s[k].v = w->agg(up);
                        s[k].evaluated = false;
                        mc::count("cells not worth evaluating");
                    }
                    else {
                        s[k].v = evaluate(s[k].c());
                        s[k].evaluated = true;
                        b2 = std::max(b2, s[k].v);
                    }
                    s[k].leaf = true;
                    level[h + 1].push_back(s[k]);
                }
                s[2].v = p.v;
                s[2].evaluated = s[2].leaf = true;
                level[h + 1].push_back(s[2]);
                LB = best();
            }
            if (std::fabs(std::fabs(old - LB) - 1e-6) < 1e-9)
                throw Ambiguous();
            XI = std::fabs(old - LB) < 1e-6 ? std::max(XI - 0.5, 1.0) : XI + 4;
            old = LB;
        }
        return pos - start;
    }
};
template <int DIN, int DOUT>
struct Sys {
    typedef limbo::bayes_opt::experimental::IMGPO<IP, limbo::modelfun<G>, limbo::initfun<Init>, limbo::acquifun<Acq<IP, G>>, limbo::stopcrit<Stop>> BO;
    Run w;
    BO bo;
    Fun<DIN, DOUT> fun;
    Tree tree;
    bool initialised = false, lost = false;
    int total = 0;
    Sys()
    {
        R = &w;
        w.din = DIN;
        w.dout = DOUT;
        w.samples = [this]() -> const Vs& { return bo.samples(); };
        w.observations = [this]() -> const Vs& { return bo.observations(); };
        IP::bayes_opt_imgpo::set_hp_opt(false);
        tree.w = &w;
        tree.dim = DIN;
    }
    ~Sys() { R = nullptr; }
    void run(bool reset, int budget, int n_init)
    {
        mc::note(mc::fmt("optimize(%s, %d evaluations, %d initial)", reset ? "reset" : "resume", budget, n_init));
        IP::stop_maxiterations::set_iterations(budget);
        bool fresh = reset || !initialised;
        if (fresh) {
            w.X.clear();
            w.Y.clear();
            w.looked.clear();
            w.base = 0;
            total = 0;
            lost = false;
        }
        w.inits = w.hp_calls = w.run_evals = 0;
        w.n_init = n_init;
        w.stopped = false;
        size_t before = w.X.size();
        bo.optimize(fun, w.agg, reset);
        initialised = true;
        mc::check(w.inits == (fresh ? 1 : 0), "initialisation-count");
        int n = (int)w.X.size() - (int)before - (fresh ? n_init : 0);
        mc::check(w.stopped && n == w.run_evals && n >= budget, "iterations", mc::fmt("%d evaluations for a budget of %d", n, budget));
        total += n;
        mc::check(bo.total_iterations() == total && bo.current_iteration() == n, "iteration-counters", mc::fmt("total %d, current %d after %d and %d", bo.total_iterations(), bo.current_iteration(), total, n));
        w.rec("after the run");
        // the model knows everything
        mc::check(same(bo.model().samples(), w.X) && same(bo.model().observations(), w.Y), "final-model", mc::fmt("%d points, %zu evaluated", bo.model().nb_samples(), w.X.size()));
        mc::check(w.hp_calls == (IP::bayes_opt_imgpo::hp_opt() ? 1 : 0), "hyper-parameter-optimisation");
        // the best pair
        double mx = -INFINITY;
        for (auto& y : w.Y)
            mx = std::max(mx, w.agg(y));
        VectorXd bs = bo.best_sample(w.agg), by = bo.best_observation(w.agg);
        bool pair = false;
        for (size_t i = 0; i < w.X.size(); ++i)
            pair = pair || (w.X[i] == bs && w.Y[i] == by);
        mc::check(pair, "best-is-a-recorded-pair");
        mc::check(w.agg(by) == mx, "best-is-maximal");
        uint64_t h = mc::hash_str("imgpo");
        for (auto& y : w.Y)
            h = mc::hash_bytes(y.data(), 8 * y.size(), h);
        for (auto& x : w.X)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        mc::state(h);
        if (lost)
            return;
        try {
            if (fresh) {
                tree.X.assign(w.X.begin(), w.X.begin() + w.base);
                tree.Y.assign(w.Y.begin(), w.Y.begin() + w.base);
                tree.pos = w.base;
            }
            int k = tree.run(budget, fresh);
            mc::check(k == n, "number-of-evaluations", mc::fmt("%d, the algorithm stops after %d", n, k));
        }
        catch (Ambiguous&) { // a tie: either choice is right, the algorithm cannot be followed any further
            lost = true;
            mc::count("runs not followed to the end (ties)");
        }
    }
};
// ---------------------------------------------------------------- all answers
template <int DIN, int DOUT>
void answers(int n, int budget, const std::vector<double>& val)
{
    Sys<DIN, DOUT> s;
    s.w.agg.kind = DOUT > 1 ? 2 : mc::choose(2);
    IP::bayes_opt_imgpo::set_hp_opt(mc::flip());
    int init = mc::choose(2);
    int seen = 0;
    s.w.value = [&](int k, const VectorXd& x) {
        VectorXd y(DOUT);
        for (int i = 0; i < DOUT; ++i)
            y[i] = (k < n ? mc::pick(val) : std::sin(3.1 * k + i)) + 0.0123 * ((k * 7 + i) % 11) + 0.00071 * k;
        if (++seen == 3)
            mc::shard();
        return y;
    };
    s.run(true, budget, init);
}
MC_SUITE("answers_1", [] { answers<1, 1>(mc::tier(6, 8), 12, {-1, 0, 2}); }, 16);
MC_SUITE("answers_2", [] { answers<2, 1>(mc::tier(6, 8), 14, {-1, 0, 2}); }, 16);
MC_SUITE("answers_3", [] { answers<3, 1>(mc::tier(6, 8), 20, {-1, 1}); }, 8);
MC_SUITE("answers_o2", [] { answers<2, 2>(mc::tier(3, 4), 12, {-1, 0.5, 2}); }, 8);
MC_SUITE("answers_large", [] { answers<1, 1>(mc::tier(5, 7), 12, {-100, 0, 100}); }, 8);
MC_SUITE("answers_flat", [] { answers<2, 1>(mc::tier(8, 10), 20, {0, 0.3}); }, 8);
// ---------------------------------------------------------------- deep trees: functions, dimensions, budgets
static double f(int k, const VectorXd& x)
{
    double s = 0;
    for (int i = 0; i < x.size(); ++i) {
        double d = x[i] - (0.137 + 0.211 * ((k + i) % 4));
        s += k % 5 == 0 ? -d * d : k % 5 == 1 ? std::cos(9 * d) + 0.1 * d : k % 5 == 2 ? -std::fabs(d) * (1 + 0.1 * i) : k % 5 == 3 ? std::exp(-20 * d * d) : 3 * d + std::sin(25 * d);
    }
    return s;
}
template <int DIN>
void deep(int budgets, int step)
{
    int k = mc::choose(10), budget = 1 + step * mc::choose(budgets), agg = mc::choose(2), init = mc::choose(3);
    mc::shard();
    Sys<DIN, 1> s;
    s.w.agg.kind = agg;
    s.w.value = [&](int, const VectorXd& x) { return VectorXd::Constant(1, f(k, x)); };
    s.run(true, budget, init);
}
MC_SUITE("deep_1", [] { deep<1>(mc::tier(10, 16), 4); }, 8);
MC_SUITE("deep_2", [] { deep<2>(mc::tier(10, 16), 5); }, 8);
MC_SUITE("deep_4", [] { deep<4>(mc::tier(6, 10), 9); }, 8);
// ---------------------------------------------------------------- call sequences
template <int DIN>
void calls(int n)
{
    Sys<DIN, 1> s;
    int k = mc::choose(5);
    s.w.agg.kind = mc::choose(2);
    IP::bayes_opt_imgpo::set_hp_opt(mc::flip());
    s.w.value = [&](int, const VectorXd& x) { return VectorXd::Constant(1, f(k, x)); };
    static const std::vector<int> budget = {0, 1, 2, 5, 9};
    for (int i = 0; i < n; ++i) {
        bool reset = mc::flip();
        int b = mc::pick(budget), init = mc::choose(2);
        if (i == 0)
            mc::shard();
        s.run(reset, b, init);
    }
}
MC_SUITE("calls_1", [] { calls<1>(mc::tier(2, 3)); }, 8);
MC_SUITE("calls_2", [] { calls<2>(mc::tier(2, 3)); }, 8);
MC_MAIN
