// P02: models, optimisers, acquisition and Pareto code under every thread schedule: no data race, and what
// they return is what the independent sequential definition gives.
#ifndef PART
#define PART 0
#endif
#include "world.hpp"
#include "rng.hpp"
#include "zoo.hpp"
#include <limbo/opt/optimizer.hpp>
using Eigen::VectorXd;
// draws happen inside the world too; no exploration of their values here (O01, I01 and B05 do that)
static const int DEV = 3;

#if PART == 0 // ------------------------------------------------------------------ models
#include "multisys.hpp"
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/opt/rprop.hpp>
#include <set>
struct Shift { // a deterministic inner optimiser
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool) const
    {
        VectorXd p = init.array() + 0.15;
        limbo::opt::eval_grad(f, p);
        limbo::opt::eval(f, init);
        return p;
    }
};
struct Pm : public zoo::P<20, false, 0> {
    struct model_sparse_gp {
        BO_DYN_PARAM(int, max_points);
    };
    struct opt_rprop : public limbo::defaults::opt_rprop {
        BO_PARAM(int, iterations, 3);
    };
};
BO_DECLARE_DYN_PARAM(int, Pm::model_sparse_gp, max_points);
template <template <typename> class KT, template <typename> class MT, typename O>
struct PMulti : MultiSys<Pm, KT, MT, limbo::model::multi_gp::ParallelLFOpt<Pm, limbo::model::gp::KernelLFOpt<Pm, O>>> {
    using MultiSys<Pm, KT, MT, limbo::model::multi_gp::ParallelLFOpt<Pm, limbo::model::gp::KernelLFOpt<Pm, O>>>::MultiSys;
};
static bool warm = true;
template <template <typename> class KT, template <typename> class MT, typename O>
static void multi_case()
{
    static const std::vector<int> OPS = {0, 2, 3, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 100};
    int dout = 2 + mc::choose(2), threads = 2 + mc::choose(dout == 3 ? 2 : 1);
    int depth = 2;
    std::vector<int> ops;
    for (int i = 0; i < depth; ++i)
        ops.push_back(mc::pick(OPS));
    mc::shard();
    PMulti<KT, MT, O> s(1, dout, 1);
    s.start();
    s.compute(0, 2, 1, dout);
    for (int i = 0; i < depth; ++i)
        if (ops[i] != 100 && !s.enabled(ops[i]))
            throw mc::Skip();
    auto body = [&](int o) {
        if (o == 100) {
            s.gp.optimize_hyperparams();
            for (int i = 0; i < s.rdout; ++i)
                s.kern[i].hp = zoo::stdv(s.gp.gp_models()[i].kernel_function().h_params());
            s.dirty = true;
        }
        else
            s.apply(o);
    };
    for (int i = 0; i + 1 < depth; ++i)
        body(ops[i]);
    std::vector<ref::Kernel> before = s.kern;
    world::run(threads, 1, [&] { body(ops[depth - 1]); }, mc::tier(2, 3));
    if (ops[depth - 1] == 100 && std::is_same<O, Shift>::value)
        for (int i = 0; i < s.rdout; ++i)
            for (size_t k = 0; k < before[i].hp.size(); ++k)
                mc::check(std::fabs(s.kern[i].hp[k] - before[i].hp[k] - 0.15) < 1e-12, "hyper-parameters", mc::fmt("output %d parameter %zu", i, k));
    s.verify();
}
MC_SUITE("multi_data", [] { multi_case<zoo::KARD, zoo::MData, Shift>(); }, 24);
MC_SUITE("multi_const", [] { multi_case<zoo::KM52, zoo::MConst, Shift>(); }, 24);
MC_SUITE("multi_rprop", [] { multi_case<zoo::KExp, zoo::MNull, limbo::opt::Rprop<Pm>>(); }, 24);

// --- read-only queries of one model from several threads
template <typename G, typename Q>
static void concurrent_queries(const G& gp, int threads, const Q& query)
{
    std::vector<VectorXd> pts = {zoo::point(5, 1), zoo::point(0, 1), VectorXd::Constant(1, 0.5)};
    std::vector<VectorXd> expect, got(pts.size());
    for (auto& p : pts)
        expect.push_back(query(gp, p));
    world::run(threads, mc::tier(1, 2), [&] { rt::tasks(pts.size(), [&](size_t i) { got[i] = query(gp, pts[i]); }); }, mc::tier(2, 3));
    for (size_t i = 0; i < pts.size(); ++i)
        mc::check(got[i].size() == expect[i].size() && (got[i] - expect[i]).cwiseAbs().maxCoeff() < 1e-12, "concurrent-query", mc::fmt("point %zu", i));
}
template <typename G>
struct Ask1 {
    VectorXd operator()(const G& g, const VectorXd& p) const
    {
        VectorXd m = g.mu(p), q;
        double s = g.sigma(p), s2;
        std::tie(q, s2) = g.query(p);
        VectorXd r(3 + 2 * m.size());
        r << m, q, s, s2, g.max_observation()(0);
        return r;
    }
};
template <typename G>
struct AskM {
    VectorXd operator()(const G& g, const VectorXd& p) const
    {
        VectorXd m = g.mu(p), s = g.sigma(p), q, s2;
        std::tie(q, s2) = g.query(p);
        VectorXd r(4 * m.size());
        r << m, q, s, s2;
        return r;
    }
};
MC_SUITE(
    "queries", [] {
        int kind = mc::choose(5), n = mc::choose(4), threads = 2 + mc::choose(2);
        mc::shard();
        std::vector<VectorXd> X, Y;
        for (int i = 0; i < n; ++i) {
            X.push_back(zoo::point(i, 1));
            Y.push_back(zoo::obs(i, 2));
        }
        typedef limbo::model::GP<Pm, limbo::kernel::SquaredExpARD<Pm>, limbo::mean::Data<Pm>> G0;
        typedef limbo::model::GP<Pm, limbo::kernel::MaternFiveHalves<Pm>, limbo::mean::FunctionARD<Pm, limbo::mean::Constant<Pm>>> G1;
        typedef limbo::model::GP<Pm, limbo::kernel::Exp<Pm>, limbo::mean::Constant<Pm>> G2;
        typedef limbo::model::SparsifiedGP<Pm, limbo::kernel::MaternThreeHalves<Pm>, limbo::mean::NullFunction<Pm>> G3;
        typedef limbo::model::MultiGP<Pm, limbo::model::GP, limbo::kernel::SquaredExpARD<Pm>, limbo::mean::Data<Pm>> G4;
        Pm::model_sparse_gp::set_max_points(2);
#define RUN(G, A) { G g(1, 2); if (n) g.compute(X, Y); concurrent_queries(g, threads, A<G>()); }
        switch (kind) {
        case 0: if (n) RUN(G0, Ask1) break;
        case 1: if (n) RUN(G1, Ask1) break;
        case 2: if (n) RUN(G2, Ask1) break;
        case 3: if (n) RUN(G3, Ask1) break;
        case 4: if (n) RUN(G4, AskM) break;
        }
        mc::state(mc::fmt("q%d %d %d", kind, n, threads));
    },
    16);

// --- independent models used from several threads at once
MC_SUITE(
    "independent", [] {
        int threads = 2 + mc::choose(2);
        int kind = mc::choose(2);
        mc::shard();
        typedef limbo::model::GP<Pm, limbo::kernel::SquaredExpARD<Pm>, limbo::mean::Data<Pm>, limbo::model::gp::KernelLFOpt<Pm, limbo::opt::Rprop<Pm>>> G0;
        typedef limbo::model::GP<Pm, limbo::kernel::MaternFiveHalves<Pm>, limbo::mean::Constant<Pm>, limbo::model::gp::KernelLooOpt<Pm, limbo::opt::Rprop<Pm>>> G1;
        auto work = [&](int i) {
            VectorXd r(2);
            std::vector<VectorXd> X = {zoo::point(i, 1), zoo::point(i + 1, 1)}, Y = {zoo::obs(i, 1), zoo::obs(i + 2, 1)};
            if (kind == 0) {
                G0 g(1, 1);
                g.compute(X, Y);
                g.optimize_hyperparams();
                g.add_sample(zoo::point(i + 3, 1), zoo::obs(1, 1));
                r << g.mu(zoo::point(7, 1))[0], g.compute_log_lik();
            }
            else {
                G1 g(1, 1);
                g.compute(X, Y);
                g.optimize_hyperparams();
                g.add_sample(zoo::point(i + 3, 1), zoo::obs(1, 1));
                r << g.mu(zoo::point(7, 1))[0], g.compute_log_loo_cv();
            }
            return r;
        };
        std::vector<VectorXd> expect, got(threads);
        for (int i = 0; i < threads; ++i)
            expect.push_back(work(i));
        world::run(threads, 2, [&] { rt::tasks(threads, [&](size_t i) { got[i] = work(i); }); }, DEV);
        for (int i = 0; i < threads; ++i)
            mc::check((got[i] - expect[i]).cwiseAbs().maxCoeff() < 1e-9, "independent-models");
        mc::state(mc::fmt("i%d %d", threads, kind));
    },
    4);

// --- sparsification: the outcome is the same for every schedule
static VectorXd pt(int i, int d)
{
    static const double b[7] = {0.0, 0.5, 1.0, 0.6, -2.0, 0.5, 1.75};
    VectorXd v(d);
    for (int k = 0; k < d; ++k)
        v[k] = b[(i * (k + 1)) % 7] * (1 + 0.3 * k) + (k ? 0.07 * i : 0);
    return v;
}
MC_SUITE(
    "sparse", [] {
        int d = 1 + mc::choose(2), cap = 1 + mc::choose(3), n = cap + 1 + mc::choose(2);
        int add = mc::choose(2), threads = 2 + (n < 4 ? mc::choose(2) : 0);
        std::vector<int> w(n);
        int first = mc::choose(7), step = 1 + mc::choose(3);
        mc::shard();
        typedef limbo::model::SparsifiedGP<Pm, limbo::kernel::Exp<Pm>, limbo::mean::Data<Pm>, limbo::model::gp::NoLFOpt<Pm>> G;
        Pm::model_sparse_gp::set_max_points(cap);
        std::vector<VectorXd> X, Y;
        for (int i = 0; i < n; ++i) {
            X.push_back(pt((first + i * step) % 7, d));
            Y.push_back(VectorXd::Constant(1, 0.5 * i - 1));
        }
        auto go = [&](G& g) {
            if (add) {
                std::vector<VectorXd> X0(X.begin(), X.begin() + n - 1), Y0(Y.begin(), Y.begin() + n - 1);
                g.compute(X0, Y0);
                g.add_sample(X.back(), Y.back());
            }
            else
                g.compute(X, Y);
        };
        G a(d, 1), b(d, 1);
        go(a); // no world: sequential
        world::run(threads, 1, [&] { go(b); }, mc::tier(1, 2));
        mc::check(b.nb_samples() == std::min(cap, n) && (int)b.samples().size() == cap, "sparse-size");
        mc::check(a.samples() == b.samples() && a.observations() == b.observations(), "sparse-schedule", "the points kept depend on the schedule");
        mc::check(std::fabs(a.mu(pt(3, d))[0] - b.mu(pt(3, d))[0]) < 1e-9, "sparse-prediction");
        mc::state(mc::fmt("s%d %d %d %d %d %d", d, cap, n, add, first, step));
    },
    24);
#endif

#if PART == 1 // ------------------------------------------------------------------ optimisers, acquisition
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/bo_base.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
#include <mutex>
struct Pm : public zoo::P<20, false, 0> {
    struct opt_parallelrepeater {
        BO_DYN_PARAM(int, repeats);
        BO_PARAM(double, epsilon, 0.05);
    };
    struct opt_rprop : public limbo::defaults::opt_rprop {
        BO_PARAM(int, iterations, 3);
    };
    struct opt_gridsearch {
        BO_PARAM(int, bins, 2);
    };
    struct opt_nloptnograd : public limbo::defaults::opt_nloptnograd {
        BO_PARAM(int, iterations, 12);
    };
    struct acqui_ucb : public limbo::defaults::acqui_ucb {};
    struct acqui_gpucb : public limbo::defaults::acqui_gpucb {};
    struct acqui_ei : public limbo::defaults::acqui_ei {};
    struct acqui_eci : public limbo::defaults::acqui_eci {};
};
BO_DECLARE_DYN_PARAM(int, Pm::opt_parallelrepeater, repeats);
struct Entry {
    VectorXd start, end;
};
static std::vector<Entry>* log_;
static std::vector<int>* moves;
// one restart: moves somewhere; which restart moves how depends on its order of arrival (an adversary)
struct Stub {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool) const
    {
        rt::point();
        VectorXd r = init;
        {
            rt::Ignore g;
            size_t k = log_->size();
            r[0] = 10. * (1 + (k < moves->size() ? (*moves)[k] : 0)) + 0.001 * k + 0.1 * init[0];
            log_->push_back(Entry{init, r});
        }
        rt::point();
        return r;
    }
};
// returns the start
struct Stay {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool) const
    {
        limbo::opt::eval(f, init);
        return init;
    }
};
MC_SUITE(
    "repeater", [] {
        int threads = 2 + mc::choose(2), n = 1 + mc::choose(threads == 3 ? 3 : 4);
        std::vector<int> mv(n);
        for (auto& m : mv)
            m = mc::choose(3);
        static const double VAL[2][3] = {{-1, 2, 2}, {-5, -7, -INFINITY}};
        int table = mc::choose(2);
        mc::shard();
        Pm::opt_parallelrepeater::set_repeats(n);
        std::vector<Entry> entries;
        log_ = &entries;
        moves = &mv;
        rng::reset(0);
        bool bounded = mc::flip();
        std::vector<double> vals;
        auto f = [&](const VectorXd& x, bool g) {
            int m = (int)std::floor(x[0] / 10.) - 1;
            return limbo::opt::no_grad(VAL[table][std::max(0, std::min(2, m))]);
        };
        VectorXd r;
        world::run(threads, 1, [&] {
            limbo::opt::ParallelRepeater<Pm, Stub> o;
            r = o(f, VectorXd::Constant(2, 0.5), bounded);
        }, n < 4 ? 2 : mc::tier(1, 2));
        mc::check((int)entries.size() == n, "repeats", mc::fmt("%zu restarts instead of %d", entries.size(), n));
        double best = -INFINITY;
        bool found = false;
        for (auto& e : entries) {
            mc::check(e.start.size() == 2 && (e.start.array() - 0.5).abs().maxCoeff() <= 0.05 + 1e-12, "start", "a restart is not within epsilon of the initial point: " + zoo::str(e.start));
            best = std::max(best, limbo::opt::eval(f, e.end));
            found = found || (r.size() == e.end.size() && r == e.end);
        }
        mc::check(found || (best == -INFINITY && r.size() == 2), "result", "the result is not that of a restart");
        if (found)
            mc::check(limbo::opt::eval(f, r) == best, "result-best", mc::fmt("value %g, best restart %g", limbo::opt::eval(f, r), best));
        mc::state(mc::fmt("r%d %d %d %d", threads, n, table, bounded) + mc::fmt("%llx", (unsigned long long)mc::hash_bytes(mv.data(), mv.size() * 4)));
    },
    24);

typedef limbo::model::GP<Pm, limbo::kernel::SquaredExpARD<Pm>, limbo::mean::Data<Pm>> G;
typedef limbo::acqui::UCB<Pm, G> Ucb;
typedef limbo::acqui::GP_UCB<Pm, G> GpUcb;
typedef limbo::acqui::EI<Pm, G> Ei;
typedef limbo::experimental::acqui::ECI<Pm, G, G> Eci;
template <typename A>
struct Make {
    static A make(const G& m, const G& c, int it) { return A(m, it); }
};
template <>
struct Make<Eci> {
    static Eci make(const G& m, const G& c, int it) { return Eci(m, c, it); }
};
// an acquisition function optimised by concurrent restarts, before and after the model changed
template <typename A, typename O>
static void acqui_opt(int din)
{
    int threads = 2 + mc::choose(2), n = mc::choose(3), more = mc::choose(2);
    mc::shard();
    Pm::opt_parallelrepeater::set_repeats(2);
    rng::reset(0);
    G m(din, 1), c(din, 1);
    for (int i = 0; i < n; ++i) {
        m.add_sample(zoo::point(i, din), zoo::obs(i, 1));
        c.add_sample(zoo::point(i, din), VectorXd::Constant(1, i % 2));
    }
    A a = Make<A>::make(m, c, 3);
    limbo::FirstElem afun;
    std::vector<std::pair<VectorXd, double>> seen;
    auto f = [&](const VectorXd& x, bool g) {
        auto r = a(x, afun, false);
        rt::Ignore gd;
        seen.push_back({x, limbo::opt::fun(r)});
        return limbo::opt::no_grad(limbo::opt::fun(r));
    };
    for (int round = 0; round <= more; ++round) {
        seen.clear();
        VectorXd r;
        auto go = [&] {
            limbo::opt::ParallelRepeater<Pm, O> o;
            r = o(f, VectorXd::Constant(din, 0.4), true);
        };
        if (round == 0 && more)
            go(); // sequential, fills whatever is cached
        else
            world::run(threads, 1, go, mc::tier(2, 3));
        double best = -INFINITY, got = NAN;
        for (auto& p : seen) {
            A fresh = Make<A>::make(m, c, 3);
            double v = limbo::opt::fun(fresh(p.first, afun, false));
            mc::check(std::fabs(v - p.second) <= 1e-12 * (1 + std::fabs(v)), "acquisition-value", mc::fmt("%.17g instead of %.17g", p.second, v));
            best = std::max(best, v);
        }
        A fresh = Make<A>::make(m, c, 3);
        got = limbo::opt::fun(fresh(r, afun, false));
        mc::check(r.size() == din && r.minCoeff() >= 0 && r.maxCoeff() <= 1 && std::isfinite(got), "acquisition-optimum");
        if (std::is_same<O, Stay>::value)
            mc::check(got == best, "acquisition-optimum");
        m.add_sample(zoo::point(6, din), VectorXd::Constant(1, 8.)); // a new best
        c.add_sample(zoo::point(6, din), VectorXd::Constant(1, 1.));
    }
    mc::state(mc::fmt("a%d %d %d %d", din, threads, n, more));
}
MC_SUITE("acqui_ucb", [] { acqui_opt<Ucb, Stay>(1); }, 12);
MC_SUITE("acqui_gpucb", [] { acqui_opt<GpUcb, Stay>(2); }, 12);
MC_SUITE("acqui_ei", [] { acqui_opt<Ei, Stay>(1); }, 12);
MC_SUITE("acqui_eci", [] { acqui_opt<Eci, Stay>(1); }, 12);
MC_SUITE("acqui_ei_grid", [] { acqui_opt<Ei, limbo::opt::GridSearch<Pm>>(1); }, 12);
MC_SUITE("acqui_ei_chain", [] { acqui_opt<Ei, limbo::opt::Chained<Pm, limbo::opt::RandomPoint<Pm>, Stay>>(1); }, 12);
MC_SUITE("acqui_ucb_nlopt", [] { acqui_opt<Ucb, limbo::opt::NLOptNoGrad<Pm, nlopt::GN_DIRECT_L>>(1); }, 12);

// a copy of an acquisition function is independent of the original
template <typename A>
static void copies()
{
    G m(1, 1), c(1, 1);
    int n = 1 + mc::choose(2), when = mc::choose(2);
    for (int i = 0; i < n; ++i) {
        m.add_sample(zoo::point(i, 1), zoo::obs(i, 1));
        c.add_sample(zoo::point(i, 1), VectorXd::Constant(1, i % 2));
    }
    A a = Make<A>::make(m, c, 2);
    limbo::FirstElem afun;
    if (when)
        a(zoo::point(3, 1), afun, false);
    A b(a);
    std::vector<double> got(4);
    world::run(2, 1, [&] {
        rt::tasks(4, [&](size_t i) { got[i] = limbo::opt::fun(i % 2 ? a(zoo::point(i, 1), afun, false) : b(zoo::point(i, 1), afun, false)); });
    }, DEV);
    for (int i = 0; i < 4; ++i) {
        A fresh = Make<A>::make(m, c, 2);
        double v = limbo::opt::fun(fresh(zoo::point(i, 1), afun, false));
        mc::check(std::fabs(v - got[i]) <= 1e-12 * (1 + std::fabs(v)), "acquisition-value");
    }
    mc::state(mc::fmt("c%d %d", n, when));
}
MC_SUITE("copies_ucb", [] { copies<Ucb>(); }, 1);
MC_SUITE("copies_gpucb", [] { copies<GpUcb>(); }, 1);
MC_SUITE("copies_ei", [] { copies<Ei>(); }, 1);
MC_SUITE("copies_eci", [] { copies<Eci>(); }, 1);

// restarts of the provided optimisers
template <typename O>
static void real_opt(int din)
{
    int threads = 2 + mc::choose(2), n = 1 + mc::choose(3), fi = mc::choose(3);
    mc::shard();
    Pm::opt_parallelrepeater::set_repeats(n);
    rng::reset(0);
    auto f = [&](const VectorXd& x, bool g) {
        double v;
        VectorXd gr(din);
        if (fi == 0) {
            v = -(x.array() - 0.3).square().sum();
            gr = -2 * (x.array() - 0.3);
        }
        else if (fi == 1) {
            v = x.sum() - 10;
            gr.setOnes();
        }
        else {
            v = 0;
            gr.setZero();
        }
        return g ? limbo::opt::eval_t(v, gr) : limbo::opt::no_grad(v);
    };
    VectorXd r;
    world::run(threads, 1, [&] {
        limbo::opt::ParallelRepeater<Pm, O> o;
        r = o(f, VectorXd::Constant(din, 0.5), true);
    }, 2);
    mc::check(r.size() == din && r.minCoeff() >= 0 && r.maxCoeff() <= 1, "domain");
    mc::state(mc::fmt("o%d %d %d", threads, n, fi));
}
MC_SUITE("opt_rprop", [] { real_opt<limbo::opt::Rprop<Pm>>(2); }, 12);
MC_SUITE("opt_grid", [] { real_opt<limbo::opt::GridSearch<Pm>>(2); }, 12);
MC_SUITE("opt_nlopt", [] { real_opt<limbo::opt::NLOptNoGrad<Pm, nlopt::LN_COBYLA>>(2); }, 12);
MC_SUITE("opt_nested", [] { real_opt<limbo::opt::ParallelRepeater<Pm, Stay>>(1); }, 12);
#endif

#if PART == 2 // ------------------------------------------------------------------ multi-objective, whole runs
#include <limbo/limbo.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/experimental/bayes_opt/bo_multi.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <set>
typedef std::tuple<VectorXd, VectorXd, VectorXd> Pt;
static bool dominates(const VectorXd& a, const VectorXd& b) { return (a.array() >= b.array()).all() && (a.array() > b.array()).any(); }
static std::vector<std::string> front(const std::vector<VectorXd>& X, const std::vector<VectorXd>& Y)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < X.size(); ++i) {
        bool in = true;
        for (auto& y : Y)
            in = in && !dominates(y, Y[i]);
        if (in)
            r.push_back(zoo::str(X[i]) + zoo::str(Y[i]));
    }
    std::sort(r.begin(), r.end());
    return r;
}
static std::vector<std::string> keys(const std::vector<Pt>& p)
{
    std::vector<std::string> r;
    for (auto& t : p)
        r.push_back(zoo::str(std::get<0>(t)) + zoo::str(std::get<1>(t)));
    std::sort(r.begin(), r.end());
    return r;
}
MC_SUITE(
    "pareto", [] {
        int threads = 2 + mc::choose(2), d = 2 + mc::choose(2), n = 1 + mc::choose(threads == 3 || d == 3 ? 2 : 3);
        std::vector<VectorXd> X, Y;
        std::vector<Pt> v;
        for (int i = 0; i < n; ++i) {
            VectorXd y(d);
            for (int k = 0; k < d; ++k)
                y[k] = mc::choose(2 + (d == 2 && n < 3));
            X.push_back(VectorXd::Constant(1, i));
            Y.push_back(y);
            v.push_back(std::make_tuple(X[i], y, y));
        }
        mc::shard();
        std::vector<Pt> r;
        world::run(threads, 1, [&] { r = pareto::pareto_set<1>(v); }, 2);
        mc::check(keys(r) == front(X, Y), "pareto", mc::fmt("%zu points, %zu returned", v.size(), r.size()));
        mc::state(mc::fmt("p%d %d %d", threads, d, n));
    },
    24);

struct Params {
    struct bayes_opt_bobase : public limbo::defaults::bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
    };
    struct bayes_opt_boptimizer {
        BO_DYN_PARAM(int, hp_period);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct kernel : public limbo::defaults::kernel {
        BO_PARAM(double, noise, 0.02);
    };
    struct kernel_exp : public limbo::defaults::kernel_exp {};
    struct kernel_squared_exp_ard : public limbo::defaults::kernel_squared_exp_ard {};
    struct kernel_maternfivehalves : public limbo::defaults::kernel_maternfivehalves {};
    struct init_randomsampling {
        BO_PARAM(int, samples, 2);
    };
    struct acqui_ei : public limbo::defaults::acqui_ei {};
    struct acqui_ucb : public limbo::defaults::acqui_ucb {};
    struct acqui_gpucb : public limbo::defaults::acqui_gpucb {};
    struct opt_gridsearch {
        BO_PARAM(int, bins, 2);
    };
    struct opt_rprop : public limbo::defaults::opt_rprop {
        BO_PARAM(int, iterations, 2);
    };
    struct opt_parallelrepeater {
        BO_PARAM(int, repeats, 2);
        BO_PARAM(double, epsilon, 0.1);
    };
    struct opt_nloptnograd : public limbo::defaults::opt_nloptnograd {
        BO_PARAM(int, iterations, 10);
    };
    struct bayes_opt_ehvi {
        BO_PARAM(double, x_ref, -5);
        BO_PARAM(double, y_ref, -5);
    };
};
BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_boptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
using namespace limbo;
typedef kernel::SquaredExpARD<Params> K;
typedef mean::Data<Params> M;
typedef model::GP<Params, K, M, model::gp::KernelLFOpt<Params, opt::ParallelRepeater<Params, opt::Rprop<Params>>>> GPT;
typedef model::MultiGP<Params, model::GP, K, M, model::multi_gp::ParallelLFOpt<Params, model::gp::KernelLFOpt<Params, opt::Rprop<Params>>>> MGPT;
typedef opt::ParallelRepeater<Params, opt::GridSearch<Params>> AO;
struct SumUcb { // for models with several variances
    const MGPT& m;
    SumUcb(const MGPT& model, int = 0) : m(model) {}
    size_t dim_in() const { return m.dim_in(); }
    size_t dim_out() const { return m.dim_out(); }
    template <typename A>
    opt::eval_t operator()(const VectorXd& v, const A& afun, bool) const
    {
        VectorXd mu, s;
        std::tie(mu, s) = m.query(v);
        return opt::no_grad(afun(mu) + 0.5 * s.cwiseSqrt().sum());
    }
};
static std::vector<VectorXd>*EX, *EY;
template <int D>
struct Fun {
    BO_PARAM(size_t, dim_in, 1);
    BO_PARAM(size_t, dim_out, D);
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y(D);
        y[0] = -(x[0] - 0.3) * (x[0] - 0.3);
        for (int i = 1; i < D; ++i)
            y[i] = -(x[0] - 0.8) * (x[0] - 0.8) * i;
        EX->push_back(x);
        EY->push_back(y);
        return y;
    }
};
template <typename BO, int D>
static void whole_run(const char* name)
{
    int threads = 2 + mc::choose(2), it = 1 + mc::choose(2), hp = mc::choose(2);
    mc::shard();
    std::vector<VectorXd> X, Y;
    EX = &X;
    EY = &Y;
    Params::stop_maxiterations::set_iterations(it);
    Params::bayes_opt_boptimizer::set_hp_period(hp ? 1 : -1);
    rng::reset(0);
    BO bo;
    world::run(threads, 1, [&] { bo.optimize(Fun<D>()); }, mc::tier(1, 2));
    mc::check((int)X.size() == 2 + it, "evaluations", mc::fmt("%zu evaluations instead of %d", X.size(), 2 + it));
    mc::check(bo.samples() == X && bo.observations() == Y, "record");
    for (auto& x : X)
        mc::check(x.size() == 1 && x[0] >= 0 && x[0] <= 1, "domain");
    VectorXd b = bo.best_observation();
    for (auto& y : Y)
        mc::check(y[0] <= b[0], "best");
    mc::state(mc::fmt("w%s %d %d %d", name, threads, it, hp));
}
MC_SUITE("run_ei", [] { whole_run<bayes_opt::BOptimizer<Params, modelfun<GPT>, acquifun<acqui::EI<Params, GPT>>, acquiopt<AO>>, 1>("ei"); }, 12);
MC_SUITE("run_ucb_multi", [] { whole_run<bayes_opt::BOptimizer<Params, modelfun<MGPT>, acquifun<SumUcb>, acquiopt<AO>>, 2>("ucb"); }, 12);

// two optimisers used from two threads at once
MC_SUITE(
    "run_two", [] {
        int it = 1 + mc::choose(2), hp = mc::choose(2);
        mc::shard();
        Params::stop_maxiterations::set_iterations(it);
        Params::bayes_opt_boptimizer::set_hp_period(hp ? 1 : -1);
        typedef bayes_opt::BOptimizer<Params, modelfun<model::GP<Params, K, M, model::gp::KernelLFOpt<Params, opt::Rprop<Params>>>>, acquifun<acqui::EI<Params, model::GP<Params, K, M, model::gp::KernelLFOpt<Params, opt::Rprop<Params>>>>>, acquiopt<opt::GridSearch<Params>>> BO;
        struct Own {
            std::vector<VectorXd> X, Y;
        } own[2];
        struct F {
            Own* o;
            BO_PARAM(size_t, dim_in, 1);
            BO_PARAM(size_t, dim_out, 1);
            VectorXd operator()(const VectorXd& x) const
            {
                VectorXd y = VectorXd::Constant(1, -x[0]);
                o->X.push_back(x);
                o->Y.push_back(y);
                return y;
            }
        };
        rng::reset(0);
        std::vector<std::unique_ptr<BO>> bos;
        for (int i = 0; i < 2; ++i)
            bos.emplace_back(new BO());
        world::run(2, 2, [&] { rt::tasks(2, [&](size_t i) { F f{&own[i]}; bos[i]->optimize(f); }); }, DEV);
        for (int i = 0; i < 2; ++i) {
            mc::check((int)own[i].X.size() == 2 + it, "evaluations");
            mc::check(bos[i]->samples() == own[i].X && bos[i]->observations() == own[i].Y, "record");
        }
        mc::state(mc::fmt("2 %d %d", it, hp));
    },
    4);

// --- experimental multi-objective optimisation by expected hypervolume improvement
struct EP : public Params {
};
typedef model::GP<Params, K, M> G1;
typedef experimental::bayes_opt::Ehvi<Params, modelfun<G1>, statsfun<boost::fusion::vector<>>> EHVI;
struct Probe : public EHVI {
    const std::vector<G1>& models() const { return this->_models; }
};
MC_SUITE(
    "run_ehvi", [] {
        int threads = 2 + mc::choose(2), it = 1 + mc::choose(2);
        mc::shard();
        std::vector<VectorXd> X, Y;
        EX = &X;
        EY = &Y;
        Params::stop_maxiterations::set_iterations(it);
        rng::reset(0);
        EHVI bo;
        world::run(threads, 1, [&] { bo.optimize(Fun<2>()); }, mc::tier(1, 2));
        mc::check((int)X.size() == 2 + it && bo.samples() == X && bo.observations() == Y, "record");
        for (auto& x : X)
            mc::check(x.size() == 1 && x[0] >= 0 && x[0] <= 1, "domain");
        bo.update_pareto_data();
        mc::check(keys(bo.pareto_data()) == front(X, Y), "pareto");
        mc::state(mc::fmt("e%d %d", threads, it));
    },
    4);
#endif

MC_MAIN
