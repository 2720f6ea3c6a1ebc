// E04: the constrained optimiser: what its two models are trained on, what it reports as best, its acquisition function.
#include "bosys.hpp"
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
struct CP : BP {
    struct bayes_opt_cboptimizer {
        static int hp_period() { return BP::bayes_opt_boptimizer::hp_period(); }
        static bool bounded() { return BP::bayes_opt_bobase::bounded(); }
    };
    struct acqui_eci {
        VDYN(double, jitter)
    };
};
static int NC, c_hp_calls;
static VectorXd c_hp;
static std::vector<VectorXd> part(const std::vector<VectorXd>& y, int from, int n)
{
    std::vector<VectorXd> r;
    for (auto& v : y)
        r.push_back(v.segment(from, n));
    return r;
}
static bool same(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && a == b; }
static bool same(const std::vector<VectorXd>& a, const std::vector<VectorXd>& b)
{
    bool r = a.size() == b.size();
    for (size_t i = 0; r && i < a.size(); ++i)
        r = same(a[i], b[i]);
    return r;
}
static std::string show(const std::vector<VectorXd>& y)
{
    std::string s;
    for (auto& v : y)
        s += zoo::str(v);
    return s;
}
template <typename M>
void trained(const M& m, const std::vector<VectorXd>& y, const char* who)
{
    World& w = *W;
    mc::check(m.nb_samples() == (int)w.X.size(), mc::fmt("%s-model-size", who), mc::fmt("%d points, %zu evaluated", m.nb_samples(), w.X.size()));
    if (w.X.empty())
        return;
    mc::check(same(m.samples(), w.X), mc::fmt("%s-model-samples", who));
    mc::check(same(m.observations(), y), mc::fmt("%s-model-observations", who), mc::fmt("trained on %s, observed %s", show(m.observations()).c_str(), show(y).c_str()));
    mc::check((int)m.dim_in() == w.din && (int)m.dim_out() == (int)y[0].size(), mc::fmt("%s-model-dimensions", who));
}
static int obj_dim() { return W->dout; }
struct HPo {
    template <typename GP>
    void operator()(GP& gp)
    {
        World& w = *W;
        w.hp_calls++;
        trained(gp, part(w.Y, 0, obj_dim()), "objective");
        w.hp = zoo::params(w.hp_calls + w.iter, gp.kernel_function().h_params_size());
        gp.kernel_function().set_h_params(w.hp);
        gp.recompute(false);
    }
};
struct HPc {
    template <typename GP>
    void operator()(GP& gp)
    {
        World& w = *W;
        c_hp_calls++;
        trained(gp, part(w.Y, obj_dim(), NC), "constraint");
        c_hp = zoo::params(c_hp_calls + w.iter + 3, gp.kernel_function().h_params_size());
        gp.kernel_function().set_h_params(c_hp);
        gp.recompute(false);
    }
};
typedef limbo::kernel::Exp<CP> K;
typedef limbo::mean::Data<CP> Mean;
typedef limbo::model::GP<CP, K, Mean, HPo> Mo;
typedef limbo::model::GP<CP, K, Mean, HPc> Mc;
template <typename Pm, typename A, typename B>
struct CAcq {
    limbo::experimental::acqui::ECI<Pm, A, B> eci;
    const A& a;
    const B& b;
    CAcq(const A& m, const B& c, int iteration) : eci(m, c, iteration), a(m), b(c)
    {
        World& w = *W;
        w.end_iteration();
        w.acquis++;
        mc::check(iteration == w.iter, "iteration-number");
        trained(m, part(w.Y, 0, obj_dim()), "objective");
        if (NC > 0) {
            trained(c, part(w.Y, obj_dim(), NC), "constraint");
            int p = BP::bayes_opt_boptimizer::hp_period();
            mc::check(c_hp_calls == (p > 0 ? w.iter / p : 0), "constraint-hyper-parameter-period", mc::fmt("%d optimisations after %d iterations, period %d", c_hp_calls, w.iter, p));
            if (c_hp.size() && w.iter)
                mc::check((c.kernel_function().h_params() - c_hp).cwiseAbs().maxCoeff() < 1e-12, "constraint-hyper-parameters");
        }
    }
    size_t dim_in() const { return a.dim_in(); }
    size_t dim_out() const { return a.dim_out(); }
    template <typename F>
    limbo::opt::eval_t operator()(const VectorXd& v, const F& afun, bool g)
    {
        mc::check(!g, "gradient-not-available");
        auto r = eci(v, afun, g);
        mc::check(std::isfinite(r.first), "acquisition-finite", mc::fmt("%g", r.first));
        return r;
    }
};
template <int DIN, int DOUT, int C>
struct CFun : Fun<DIN, DOUT + C> {
    BO_PARAM(size_t, dim_in, DIN);
    BO_PARAM(size_t, dim_out, DOUT);
    BO_PARAM(size_t, nb_constraints, C);
};
struct CInnerOpt { // as InnerOpt, without the model (the acquisition function is told the models)
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const { return InnerOpt()(f, init, bounded); }
};
// a statistic that asks for the best while the run goes on (like stat::BestObservations)
static int ask_best = 0;
static std::function<void()> ask;
struct CStat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        Stat()(bo, afun);
        if (ask_best)
            ask();
    }
};
struct CAgg : Agg {
    double operator()(const VectorXd& y) const
    {
        mc::check(y.size() == obj_dim(), "aggregation-of-objectives", mc::fmt("the aggregation function is given %d values, there are %d objectives", (int)y.size(), obj_dim()));
        return Agg::operator()(y);
    }
};
template <int DIN, int DOUT, int C>
struct Sys {
    typedef limbo::experimental::bayes_opt::CBOptimizer<CP, limbo::modelfun<Mo>, limbo::initfun<Init>, limbo::acquifun<CAcq<CP, Mo, Mc>>, limbo::acquiopt<CInnerOpt>, limbo::statsfun<CStat>,
        limbo::stopcrit<boost::fusion::vector<StopMonitor, limbo::stop::MaxIterations<BP>>>, limbo::experimental::constraint_modelfun<Mc>>
        BO;
    World w;
    BO bo;
    CFun<DIN, DOUT, C> fun;
    CAgg agg;
    Sys()
    {
        W = &w;
        NC = C;
        w.din = DIN;
        w.dout = DOUT;
        w.afun_id = agg.id;
        w.samples = [this]() -> const std::vector<VectorXd>& { return bo.samples(); };
        w.observations = [this]() -> const std::vector<VectorXd>& { return bo.observations(); };
        w.check_model = [this] { trained(bo.model(), part(w.Y, 0, DOUT), "objective"); };
        ask = [this] { best(); };
        ask_best = 0;
    }
    ~Sys() { W = nullptr; }
    void begin(bool reset)
    {
        w.inits = w.iter = w.asks = w.hp_calls = w.stats = w.acquis = w.evals_init = w.evals_loop = w.stop_checks = 0;
        c_hp_calls = 0;
        w.in_init = w.asked = false;
        if (reset) {
            w.X.clear();
            w.Y.clear();
            w.initialised = false;
            w.total = 0;
        }
        w.hp.resize(0);
        c_hp.resize(0);
    }
    void run(bool reset, int budget, int n_init)
    {
        mc::note(mc::fmt("optimize(%s, %d iterations, %d initial points)", reset ? "reset" : "resume", budget, n_init));
        BP::stop_maxiterations::set_iterations(budget);
        w.n_init = n_init;
        bool fresh = reset || !w.initialised;
        begin(reset);
        bo.optimize(fun, agg, reset);
        mc::op();
        w.end_iteration();
        mc::check(w.inits == (fresh ? 1 : 0), "initialisation-count");
        w.initialised = true;
        mc::check(w.evals_init == (fresh ? n_init : 0), "initial-evaluations");
        mc::check(w.evals_loop == budget && w.iter == budget && w.stats == budget && w.asks == budget, "iterations", mc::fmt("%d evaluations in a run of %d", w.evals_loop, budget));
        w.total += budget;
        done();
    }
    void done()
    {
        w.record("after the run");
        w.check_model();
        mc::check(bo.total_iterations() == w.total, "total-iterations");
        best();
        uint64_t h = mc::hash_str("c");
        for (auto& x : w.X)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        for (auto& x : w.Y)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        mc::state(h * 31 + w.total * 2 + w.initialised);
    }
    template <typename A>
    void best(const A& a, const char* name)
    {
        std::vector<int> ok;
        for (size_t i = 0; i < w.Y.size(); ++i)
            if (C == 0 || w.Y[i].tail(C).minCoeff() > 0)
                ok.push_back(i);
        bool any = !ok.empty();
        if (!any)
            for (size_t i = 0; i < w.Y.size(); ++i)
                ok.push_back(i);
        double mx = -INFINITY;
        for (int i : ok)
            mx = std::max(mx, a(w.Y[i].head(DOUT)));
        // asked in both orders: one answer must not change the other
        VectorXd s0 = bo.best_sample(a), o0 = bo.best_observation(a), s1 = bo.best_sample(a), o1 = bo.best_observation(a);
        mc::check(s0 == s1 && o0 == o1, "best-repeatable");
        bool recorded = false, feasible = false;
        for (size_t i = 0; i < w.X.size(); ++i)
            if (w.X[i] == s0 && w.Y[i].head(DOUT) == o0) {
                recorded = true;
                feasible |= std::find(ok.begin(), ok.end(), (int)i) != ok.end();
            }
        mc::check(recorded, "best-is-a-recorded-pair", mc::fmt("%s: (%s, %s) in samples %s observations %s", name, zoo::str(s0).c_str(), zoo::str(o0).c_str(), show(w.X).c_str(), show(w.Y).c_str()));
        mc::check(feasible, "best-is-feasible", mc::fmt("%s: (%s, %s) in samples %s observations %s", name, zoo::str(s0).c_str(), zoo::str(o0).c_str(), show(w.X).c_str(), show(w.Y).c_str()));
        mc::check(a(o0) == mx, any ? "best-is-maximal-among-feasible" : "best-is-maximal", mc::fmt("%s: %.17g, the record has %.17g", name, a(o0), mx));
        mc::op();
    }
    void best()
    {
        if (w.X.empty())
            return;
        best(agg, "user's");
        best(limbo::FirstElem(), "first");
        best([](const VectorXd& y) { return -y[0]; }, "negated");
        bool same = bo.best_sample() == bo.best_sample(limbo::FirstElem()) && bo.best_observation() == bo.best_observation(limbo::FirstElem());
        mc::check(same, "default-aggregation");
    }
};
// ---------------------------------------------------------------- all observation sequences
// objectives and constraints over small alphabets, with ties, zero and several signs
template <int DIN, int DOUT, int C>
void sequences(int n, const std::vector<double>& obj, const std::vector<double>& con, int points)
{
    int init = mc::choose(n + 1); // the first ones come from the initial design
    ask_best = 0;
    Sys<DIN, DOUT, C> s;
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(-1);
    s.w.points = points;
    s.w.fixed_answers = 0;
    ask_best = mc::choose(2);
    std::vector<VectorXd> vals;
    for (int i = 0; i < n; ++i) {
        VectorXd y(DOUT + C);
        for (int j = 0; j < DOUT + C; ++j)
            y[j] = mc::pick(j < DOUT ? obj : con);
        vals.push_back(y);
        if (i == 0)
            mc::shard();
    }
    s.w.value = [&](int k) { return vals[k]; };
    s.run(true, n - init, init);
}
MC_SUITE("seq_c1", [] { sequences<1, 1, 1>(mc::tier(4, 5), {-1, 0, 2}, {-1, 0, 1}, 3); }, 8);
MC_SUITE("seq_c1_values", [] { sequences<1, 1, 1>(mc::tier(3, 4), {-1, 1e10, 2}, {-1, 0, 1e-300, 0.5, 2}, 2); }, 8);
MC_SUITE("seq_c2", [] { sequences<1, 1, 2>(mc::tier(3, 4), {-1, 2}, {-1, 0, 1}, 3); }, 8);
MC_SUITE("seq_c3", [] { sequences<1, 1, 3>(mc::tier(2, 3), {-1, 2}, {-1, 1, 0}, 3); }, 8);
MC_SUITE("seq_o2_c1", [] { sequences<2, 2, 1>(mc::tier(3, 4), {-1, 2}, {-1, 0, 1}, 3); }, 8);
MC_SUITE("seq_c0", [] { sequences<1, 1, 0>(mc::tier(5, 7), {-1, 0, 2}, {0}, 3); }, 8);
// longer sequences of feasible (1) / infeasible (0) with distinct increasing or decreasing objectives
MC_SUITE("seq_long", [] {
    int n = mc::tier(9, 12), init = mc::choose(3), dir = mc::choose(3);
    Sys<1, 1, 1> s;
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(-1);
    s.w.fixed_answers = 0;
    std::vector<VectorXd> vals;
    for (int i = 0; i < n; ++i) {
        VectorXd y(2);
        y << (dir == 0 ? i : dir == 1 ? -i : (i * 5) % 7), mc::choose(2);
        vals.push_back(y);
        if (i == 3)
            mc::shard();
    }
    s.w.value = [&](int k) { return vals[k]; };
    s.run(true, n - init, init);
}, 8);
// ---------------------------------------------------------------- call sequences
template <int DIN, int DOUT, int C>
void calls(int n)
{
    Sys<DIN, DOUT, C> s;
    BP::bayes_opt_bobase::set_bounded(mc::flip());
    BP::bayes_opt_boptimizer::set_hp_period(mc::pick(std::vector<int>{-1, 1, 2}));
    s.w.points = 2;
    s.w.value = [](int k) {
        VectorXd y(DOUT + C);
        for (int i = 0; i < DOUT; ++i)
            y[i] = zoo::obs(k, DOUT)[i];
        for (int i = 0; i < C; ++i)
            y[DOUT + i] = (k + i) % 3 == 1 ? 0 : (k + 2 * i) % 4 == 3 ? -1 : 1;
        return y;
    };
    ask_best = mc::choose(2);
    for (int i = 0; i < n; ++i) {
        bool reset = mc::flip();
        int budget = mc::choose(3), ninit = mc::choose(3);
        if (i == 0)
            mc::shard();
        s.run(reset, budget, ninit);
    }
}
MC_SUITE("calls_c1", [] { calls<1, 1, 1>(mc::tier(2, 3)); }, 8);
MC_SUITE("calls_c0", [] { calls<1, 1, 0>(mc::tier(2, 3)); }, 8);
MC_SUITE("calls_c2", [] { calls<2, 1, 2>(mc::tier(2, 3)); }, 8);
MC_SUITE("calls_o2_c1", [] { calls<1, 2, 1>(mc::tier(2, 3)); }, 8);
// ---------------------------------------------------------------- a failing evaluation anywhere, then resume or reset
template <int C>
void faults()
{
    Sys<1, 1, C> s;
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(mc::pick(std::vector<int>{-1, 1}));
    s.w.fixed_answers = 0;
    s.w.value = [](int k) {
        VectorXd y(1 + C);
        y[0] = (k * 3) % 4;
        for (int i = 0; i < C; ++i)
            y[1 + i] = (k + i) % 2;
        return y;
    };
    int at = mc::choose(6), kind = 1 + mc::choose(5), budget = mc::choose(4), ninit = mc::choose(3), reset = mc::choose(2);
    mc::shard();
    s.w.fault = [&]() { return s.w.evaluations - 1 == at ? (Fault)kind : OK; };
    bool thrown = false;
    try {
        s.run(true, budget, ninit);
    }
    catch (limbo::EvaluationError&) {
        thrown = true;
        mc::check(kind != THROW_OTHER, "exception-kind");
    }
    catch (Boom&) {
        thrown = true;
        mc::check(kind == THROW_OTHER, "exception-kind");
    }
    mc::check(thrown == (at < budget + ninit), "failure-reported");
    s.w.record("after the failure");
    if (thrown) {
        s.w.initialised = at >= ninit;
        s.w.total = at >= ninit ? at - ninit : 0;
        s.w.fault = nullptr;
        s.best();
    }
    s.w.fault = nullptr;
    s.run(reset, 2, 1);
}
MC_SUITE("faults_c1", faults<1>, 4);
MC_SUITE("faults_c2", faults<2>, 4);
// ---------------------------------------------------------------- every policy given is used, in whatever order
typedef limbo::modelfun<Mo> P0;
typedef limbo::initfun<Init> P1;
typedef limbo::acquifun<CAcq<CP, Mo, Mc>> P2;
typedef limbo::acquiopt<CInnerOpt> P3;
typedef limbo::statsfun<CStat> P4;
typedef limbo::stopcrit<StopMonitor> P5;
typedef limbo::experimental::constraint_modelfun<Mc> P6;
template <typename B>
void policies(const char* order)
{
    auto c = [&](bool ok, const char* what) { mc::check(ok, mc::fmt("policy-ignored-%s", what), order); };
    c(std::is_same<typename B::model_t, Mo>::value, "model");
    c(std::is_same<typename B::init_function_t, Init>::value, "init");
    c(std::is_same<typename B::acquisition_function_t, CAcq<CP, Mo, Mc>>::value, "acquisition");
    c(std::is_same<typename B::acqui_optimizer_t, CInnerOpt>::value, "acquisition-optimiser");
    c(std::is_same<typename B::stat_t, boost::fusion::vector<CStat>>::value, "statistics");
    c(std::is_same<typename B::stopping_criteria_t, boost::fusion::vector<StopMonitor>>::value, "stopping-criterion");
    c(std::is_same<typename B::constraint_model_t, Mc>::value, "constraint-model");
    mc::op();
    mc::state(order);
}
template <typename... A>
using CB = limbo::experimental::bayes_opt::CBOptimizer<CP, A...>;
MC_SUITE("policies", [] {
    policies<CB<P0, P1, P2, P3, P4, P5, P6>>("rotation 0");
    policies<CB<P1, P2, P3, P4, P5, P6, P0>>("rotation 1");
    policies<CB<P2, P3, P4, P5, P6, P0, P1>>("rotation 2");
    policies<CB<P3, P4, P5, P6, P0, P1, P2>>("rotation 3");
    policies<CB<P4, P5, P6, P0, P1, P2, P3>>("rotation 4");
    policies<CB<P5, P6, P0, P1, P2, P3, P4>>("rotation 5");
    policies<CB<P6, P0, P1, P2, P3, P4, P5>>("rotation 6");
    policies<CB<P6, P5, P4, P3, P2, P1, P0>>("reverse rotation 0");
    policies<CB<P5, P4, P3, P2, P1, P0, P6>>("reverse rotation 1");
    policies<CB<P4, P3, P2, P1, P0, P6, P5>>("reverse rotation 2");
    policies<CB<P3, P2, P1, P0, P6, P5, P4>>("reverse rotation 3");
    policies<CB<P2, P1, P0, P6, P5, P4, P3>>("reverse rotation 4");
    policies<CB<P1, P0, P6, P5, P4, P3, P2>>("reverse rotation 5");
    policies<CB<P0, P6, P5, P4, P3, P2, P1>>("reverse rotation 6");
});
// ---------------------------------------------------------------- expected constrained improvement
struct Fake {
    std::vector<VectorXd> X, M;
    VectorXd mu_q;
    double s2 = 0;
    int dout = 1;
    size_t dim_in() const { return 1; }
    size_t dim_out() const { return dout; }
    const std::vector<VectorXd>& samples() const { return X; }
    const std::vector<VectorXd>& observations() const { return M; }
    int nb_samples() const { return X.size(); }
    VectorXd mu(const VectorXd& v) const
    {
        for (size_t i = 0; i < X.size(); ++i)
            if (X[i] == v)
                return M[i];
        return mu_q;
    }
    double sigma(const VectorXd&) const { return s2; }
    std::tuple<VectorXd, double> query(const VectorXd& v) const { return std::make_tuple(mu(v), s2); }
};
typedef long double LD;
static LD Phi(LD z) { return erfcl(-z / sqrtl(2)) / 2; }
static LD phi(LD z) { return expl(-z * z / 2) / sqrtl(2 * acosl(-1.0L)); }
struct Weighted { // an aggregation of two objectives: not applicable to one constraint
    double operator()(const VectorXd& y) const
    {
        mc::check(y.size() == 2, "aggregation-of-objectives", mc::fmt("the aggregation function of two objectives is applied to %d values", (int)y.size()));
        return 0.5 * y[0] + 2 * y[1];
    }
};
template <typename A>
void eci(const A& afun, int dout, int nc, const std::vector<double>& mus, const std::vector<double>& s2s, int nx)
{
    double jitter = mc::choose(2) * 0.3;
    CP::acqui_eci::set_jitter(jitter);
    Fake f, c;
    f.dout = dout;
    c.dout = nc;
    auto any = [&](int d) { VectorXd v(d); for (int i = 0; i < d; ++i) v[i] = mc::pick(mus); return v; };
    f.mu_q = any(dout);
    c.mu_q = any(nc);
    f.s2 = mc::pick(s2s);
    c.s2 = mc::pick(s2s);
    mc::shard();
    VectorXd v = VectorXd::Constant(1, 0.31);
    LD best = -INFINITY, sf = sqrtl(f.s2), sc = sqrtl(c.s2);
    limbo::experimental::acqui::ECI<CP, Fake, Fake> u(f, c);
    mc::check(u(v, afun, false).first == 0, "eci-without-data");
    for (int i = 0; i < nx; ++i) { // the same object follows the models
        f.X.push_back(VectorXd::Constant(1, i));
        c.X.push_back(VectorXd::Constant(1, i));
        f.M.push_back(any(dout));
        c.M.push_back(VectorXd::Ones(nc));
        best = std::max<LD>(best, afun(f.M.back()));
        double r = u(v, afun, false).first;
        LD x = (LD)afun(f.mu_q) - best - jitter, pf = 1, e;
        for (int k = 0; k < nc; ++k)
            pf *= sc < 1e-10 ? 1 : Phi((c.mu_q[k] - 1) / sc);
        if (sc < 1e-10 && c.mu_q.minCoeff() < 1)
            continue; // certainly infeasible: not specified
        e = sf < 1e-10 ? 0 : pf * (x * Phi(x / sf) + sf * phi(x / sf));
        LD scale = std::max<LD>(1e-3, (fabsl(x) + sf) * pf);
        mc::check(std::isfinite(r) && r >= -1e-12 * scale && fabsl(r - e) <= 1e-9L * scale, "eci-value", mc::fmt("%.12g instead of %.12Lg with %d constraints predicted %s", r, e, nc, zoo::str(c.mu_q).c_str()));
        mc::op();
        mc::state(mc::hash_bytes(c.mu_q.data(), 8 * nc, (uint64_t)(f.s2 * 1e9 + f.X.size())));
    }
}
MC_SUITE("eci_1", [] { eci(limbo::FirstElem(), 1, 1, {-1, 0, 1, 2.5}, {0, 1e-8, 0.04, 1, 100}, 2); }, 4);
MC_SUITE("eci_2", [] { eci(limbo::FirstElem(), 1, 2, {-1, 1, 2.5}, {0, 0.04, 4}, 2); }, 4);
MC_SUITE("eci_3", [] { eci(limbo::FirstElem(), 1, 3, {-1, 1, 2.5}, {0, 0.04, 4}, 1); }, 4);
MC_SUITE("eci_o2", [] { eci(Weighted(), 2, 1, {-1, 1, 2.5}, {0, 0.04, 4}, 1); }, 4);
MC_SUITE("eci_o2_c2", [] { eci(Weighted(), 2, 2, {-1, 1, 2}, {0.04, 4}, 1); }, 4);
MC_MAIN
