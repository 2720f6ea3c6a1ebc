// B06: every policy given is used, in whatever order it is given, and the documented default otherwise.
#include "mc.hpp"
#include <dirent.h>
#include <iostream>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/stop/max_iterations.hpp>
#include <sys/stat.h>
#include <typeindex>
#if PART == 4 || PART == 5
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#endif
using Eigen::VectorXd;
struct QP {
    struct bayes_opt_bobase {
        BO_PARAM(int, stats_enabled, true);
        BO_PARAM(bool, bounded, true);
    };
    struct bayes_opt_boptimizer {
        BO_PARAM(int, hp_period, -1);
    };
    struct bayes_opt_cboptimizer {
        BO_PARAM(int, hp_period, -1);
        BO_PARAM(bool, bounded, true);
    };
    struct bayes_opt_imgpo : limbo::defaults::bayes_opt_imgpo {
    };
    struct bayes_opt_ehvi {
        BO_PARAM(double, x_ref, -11);
        BO_PARAM(double, y_ref, -11);
    };
    struct model_gp_parego {
        BO_PARAM(double, rho, 0.05);
    };
    struct stop_maxiterations {
        VDYN(int, iterations);
    };
    struct acqui_ucb {
        BO_PARAM(double, alpha, 0.4);
    };
    struct kernel : limbo::defaults::kernel {
    };
    struct kernel_exp : limbo::defaults::kernel_exp {
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct kernel_squared_exp_ard : limbo::defaults::kernel_squared_exp_ard {
    };
    struct mean_constant : limbo::defaults::mean_constant {
    };
    struct opt_rprop : limbo::defaults::opt_rprop {
    };
    struct opt_nloptnograd {
        BO_PARAM(int, iterations, 30);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
    struct init_randomsampling {
        VDYN(int, samples);
    };
};
// ---------------------------------------------------------------- policies that say they were used
struct Seen {
    int init = 0, acquis = 0, values = 0, inner = 0, stats = 0, stops = 0;
    std::vector<std::type_index> models, constraint_models;
    int stop_after = 0;
    std::vector<VectorXd> X;
} last, *S;
struct Init {
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& o) const
    {
        S->init++;
        for (double x : {0.15, 0.35, 0.65})
            o.eval_and_add(f, VectorXd::Constant(1, x));
    }
};
typedef limbo::model::GP<QP, limbo::kernel::MaternFiveHalves<QP>> Model;
typedef limbo::model::GP<QP> Default;
struct Acq {
    double at;
    template <typename M>
    Acq(const M& m, int it = 0) : at((1 + it % 7) / 16.)
    {
        S->acquis++;
        S->models.push_back(typeid(M));
    }
    template <typename M, typename C>
    Acq(const M& m, const C&, int it) : Acq(m, it)
    {
        S->constraint_models.push_back(typeid(C));
    }
    size_t dim_in() const { return 1; }
    size_t dim_out() const { return 1; }
    template <typename A>
    limbo::opt::eval_t operator()(const VectorXd& v, const A&, bool) const
    {
        S->values++;
        return limbo::opt::no_grad(-(v[0] - at) * (v[0] - at));
    }
    template <typename A>
    double operator()(const VectorXd& v, const A&) const // (the partition-tree optimiser)
    {
        S->values++;
        return 100;
    }
};
struct Inner {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd&, bool) const
    {
        S->inner++;
        f(VectorXd::Constant(1, 0.5), false);
        return VectorXd::Constant(1, 0.875 - (S->inner % 9) / 64.);
    }
};
struct Stat {
    template <typename BO, typename A>
    void operator()(const BO&, const A&) { S->stats++; }
};
struct Stop {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A&)
    {
        S->stops++;
        return bo.current_iteration() >= S->stop_after;
    }
};
typedef limbo::model::GP<QP, limbo::kernel::Exp<QP>> CModel;
typedef limbo::model::GP<QP, limbo::kernel::Exp<QP>, limbo::mean::Constant<QP>> DefaultCModel;
typedef limbo::acqui::UCB<QP, Default> DefaultAcqui;
typedef limbo::opt::NLOptNoGrad<QP, nlopt::GN_DIRECT_L_RAND> DefaultInner;
#if PART == 5 // Parego wraps the model
typedef limbo::experimental::model::GPParego<QP, Model> GivenModel;
typedef limbo::experimental::model::GPParego<QP, Default> DefaultModel;
#else
typedef Model GivenModel;
typedef Default DefaultModel;
#endif
// ---------------------------------------------------------------- roles, in the order of the bits of a set
enum { MODEL = 1, INIT = 2, ACQUI = 4, ACQUIOPT = 8, STATS = 16, STOP = 32, CONSTRAINT = 64 };
template <int R>
struct Role;
template <>
struct Role<0> {
#if PART == 5
    typedef limbo::experimental::bayes_opt::parego_modelfun<Model> type;
#else
    typedef limbo::modelfun<Model> type;
#endif
};
template <>
struct Role<1> {
    typedef limbo::initfun<Init> type;
};
template <>
struct Role<2> {
    typedef limbo::acquifun<Acq> type;
};
template <>
struct Role<3> {
    typedef limbo::acquiopt<Inner> type;
};
template <>
struct Role<4> {
    typedef limbo::statsfun<Stat> type;
};
template <>
struct Role<5> {
    typedef limbo::stopcrit<Stop> type;
};
template <>
struct Role<6> {
    typedef limbo::experimental::constraint_modelfun<CModel> type;
};
static std::string name(const std::vector<int>& order)
{
    static const char* n[] = {"modelfun", "initfun", "acquifun", "acquiopt", "statsfun", "stopcrit", "constraint_modelfun"};
    std::string r;
    for (int i : order)
        r += (r.empty() ? "" : ", ") + std::string(n[i]);
    return "<" + r + ">";
}
template <int... R>
struct Order {
};
// calls V::visit<R...>() for every ordered selection of at most MAX of the ALLOWED roles
template <typename V, unsigned ALLOWED, int MAX, unsigned USED, int I, int... R>
struct Each;
template <bool GO, typename V, unsigned ALLOWED, int MAX, unsigned USED, int I, int... R>
struct Choose { // role I next
    static void run() { Each<V, ALLOWED, MAX, (USED | (1u << I)), 0, R..., I>::run(); }
};
template <typename V, unsigned ALLOWED, int MAX, unsigned USED, int I, int... R>
struct Choose<false, V, ALLOWED, MAX, USED, I, R...> {
    static void run() {}
};
template <typename V, unsigned ALLOWED, int MAX, unsigned USED, int I, int... R>
struct Each {
    static void run()
    {
        if (I == 0)
            visit(std::integral_constant<bool, I == 0>());
        Choose<((int)sizeof...(R) < MAX && ((ALLOWED >> I) & 1) && !((USED >> I) & 1)), V, ALLOWED, MAX, USED, I, R...>::run();
        Each<V, ALLOWED, MAX, USED, I + 1, R...>::run();
    }
    static void visit(std::true_type) { V::template visit<R...>(); }
    static void visit(std::false_type) {}
};
template <typename V, unsigned ALLOWED, int MAX, unsigned USED, int... R>
struct Each<V, ALLOWED, MAX, USED, 7, R...> {
    static void run() {}
};
static unsigned set(const std::vector<int>& o)
{
    unsigned s = 0;
    for (int i : o)
        s |= 1u << i;
    return s;
}
// what an optimiser says its components are
static void is(bool ok, const char* what, unsigned given, unsigned role, const std::string& order)
{
    mc::check(ok, mc::fmt(given & role ? "given-%s-ignored" : "default-%s-replaced", what), order);
}
typedef boost::fusion::vector<limbo::stat::Samples<QP>, limbo::stat::AggregatedObservations<QP>, limbo::stat::ConsoleSummary<QP>> DefaultStats;
#define TYPE(T) std::type_index(typeid(T))
template <typename B>
void base_types(const std::vector<int>& o)
{
    unsigned s = set(o);
    std::string n = name(o);
    is(TYPE(typename B::model_t) == (s & MODEL ? TYPE(GivenModel) : TYPE(DefaultModel)), "model", s, MODEL, n);
    is(TYPE(typename B::init_function_t) == (s & INIT ? TYPE(Init) : TYPE(limbo::init::RandomSampling<QP>)), "init", s, INIT, n);
    is(TYPE(typename B::acquisition_function_t) == (s & ACQUI ? TYPE(Acq) : TYPE(DefaultAcqui)), "acquisition", s, ACQUI, n);
    is(TYPE(typename B::stat_t) == (s & STATS ? TYPE(boost::fusion::vector<Stat>) : TYPE(DefaultStats)), "statistics", s, STATS, n);
    is(TYPE(typename B::stopping_criteria_t) == (s & STOP ? TYPE(boost::fusion::vector<Stop>) : TYPE(boost::fusion::vector<limbo::stop::MaxIterations<QP>>)), "stopping-criterion", s, STOP, n);
    mc::op();
    mc::state(n);
}
template <typename B>
void opt_types(const std::vector<int>& o)
{
    unsigned s = set(o);
    is(TYPE(typename B::acqui_optimizer_t) == (s & ACQUIOPT ? TYPE(Inner) : TYPE(DefaultInner)), "acquisition-optimiser", s, ACQUIOPT, name(o));
}
// ---------------------------------------------------------------- runs
static std::vector<std::string> listing(const std::string& d)
{
    std::vector<std::string> r;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p))
            if (e->d_name[0] != '.')
                r.push_back(e->d_name);
        closedir(p);
    }
    return r;
}
static void clean() // left by earlier executions (the working directory is the suite's own)
{
    for (auto& d : listing(".")) {
        for (auto& f : listing(d))
            unlink((d + "/" + f).c_str());
        rmdir(d.c_str());
    }
}
template <int OUT, int C>
struct Fun {
    BO_PARAM(size_t, dim_in, 1);
    BO_PARAM(size_t, dim_out, OUT);
    static size_t nb_constraints() { return C; }
    VectorXd operator()(const VectorXd& x) const
    {
        S->X.push_back(x);
        return VectorXd::Constant(OUT + C, std::sin(3 * x[0]) + 1);
    }
};
static const int SLACK = 16;
struct Setting {
    int budget, samples;
};
// runs the optimiser and compares what was called with what was given
enum { EXACT = 1, USES_INNER = 2, USES_ACQUI = 4, SEVERAL = 8 };
template <typename BO, typename Run>
void observe(const std::vector<int>& o, const Setting& k, int how, const Run& run)
{
    unsigned s = set(o);
    std::string n = name(o);
    mc::note(mc::fmt("%s, %d iterations, %d random samples by default", n.c_str(), k.budget, k.samples));
    clean();
    Seen& seen = last;
    seen = Seen();
    S = &seen;
    QP::stop_maxiterations::set_iterations(s & STOP ? k.budget + SLACK : k.budget);
    QP::init_randomsampling::set_samples(k.samples);
    seen.stop_after = k.budget;
    std::ostringstream console;
    struct Scope {
        std::streambuf* b;
        ~Scope() { std::cout.rdbuf(b); }
    } scope{std::cout.rdbuf(console.rdbuf())};
    std::string dir;
    std::vector<VectorXd> X;
    int iterations;
    {
        BO bo;
        dir = bo.res_dir();
        run(bo);
        X = bo.samples();
        iterations = bo.total_iterations();
    }
    S = nullptr;
    mc::op();
    mc::state(n + mc::fmt("/%d/%d", k.budget, k.samples));
    auto c = [&](bool ok, const char* what, unsigned role) { is(ok, what, s, role, n); };
    int first = s & INIT ? 3 : k.samples;
    c(seen.init == (s & INIT ? 1 : 0) && (int)seen.X.size() >= first, "init", INIT);
    if (s & INIT)
        c(seen.X[0][0] == 0.15 && seen.X[1][0] == 0.35 && seen.X[2][0] == 0.65, "init", INIT);
    for (auto& x : seen.X)
        mc::check(x[0] >= 0 && x[0] <= 1, "outside", n);
    int decided = (int)seen.X.size() - first;
    c((s & STOP) ? seen.stops > 0 : seen.stops == 0, "stopping-criterion", STOP);
    c(iterations == decided && decided >= k.budget && (how & EXACT ? decided == k.budget : decided < k.budget + SLACK), "stopping-criterion", STOP);
    if (how & USES_ACQUI) {
        c(s & ACQUI ? seen.acquis >= (how & EXACT ? decided : decided - 1) && (seen.acquis == 0 || seen.values > 0) : seen.acquis == 0, "acquisition", ACQUI);
        for (auto& m : seen.models)
            c(m == (s & MODEL ? TYPE(GivenModel) : TYPE(DefaultModel)), "model", MODEL);
    }
    if (how & USES_INNER) {
        c(!(s & ACQUIOPT) ? seen.inner == 0 : how & SEVERAL ? seen.inner >= decided : seen.inner == decided, "acquisition-optimiser", ACQUIOPT);
        for (int i = 0; i < decided; ++i) {
            double x = seen.X[first + i][0], j = (0.875 - x) * 64;
            if (s & ACQUIOPT)
                c(how & SEVERAL ? j >= 0 && j <= 8 && j == std::floor(j) : j == (i + 1) % 9, "acquisition-optimiser", ACQUIOPT);
            else if ((how & USES_ACQUI) && (s & ACQUI)) // the maximum of the acquisition function, found roughly by a real optimiser
                mc::check(std::fabs(x - (1 + i % 7) / 16.) < 0.2, "acquisition-not-optimised", n);
        }
    }
    auto files = listing(dir);
    auto has = [&](const char* f) { return std::find(files.begin(), files.end(), f) != files.end(); };
    c(seen.stats == (s & STATS ? decided : 0), "statistics", STATS);
    bool expect = !(s & STATS) && decided > 0;
    c(has("samples.dat") == expect && has("aggregated_observations.dat") == expect && console.str().empty() != expect, "statistics", STATS);
}
struct Config {
    std::vector<int> order;
    void (*run)(const std::vector<int>&, const Setting&);
};
typedef std::vector<Config> Configs;
static void explore(const Configs& cs)
{
    const Config& c = cs[mc::choose(cs.size())];
    mc::shard();
    Setting k;
    k.budget = mc::choose(4);
    k.samples = 1 + mc::choose(3);
    c.run(c.order, k);
}
constexpr int count(unsigned s) { return s ? (s & 1) + count(s >> 1) : 0; }
// the roles of a set, in increasing order, or decreasing, or starting in the middle
template <unsigned SET, int I, int... R>
struct Up {
    typedef typename std::conditional<(SET >> I) & 1, Up<SET, I + 1, R..., I>, Up<SET, I + 1, R...>>::type::type type;
};
template <unsigned SET, int... R>
struct Up<SET, 7, R...> {
    typedef Order<R...> type;
};
template <unsigned SET, int I, int... R>
struct Down {
    typedef typename std::conditional<(SET >> I) & 1, Down<SET, I + 1, I, R...>, Down<SET, I + 1, R...>>::type::type type;
};
template <unsigned SET, int... R>
struct Down<SET, 7, R...> {
    typedef Order<R...> type;
};
template <typename V, typename O>
struct Add;
template <typename V, int... R>
struct Add<V, Order<R...>> {
    static void to(Configs& cs) { cs.push_back({{R...}, &V::template run<R...>}); }
};
// (a model of one's own comes with an acquisition function for it, where there is one)
constexpr bool legal(unsigned s, unsigned allowed, unsigned must, bool own, int max) { return (s & ~allowed) == 0 && (s & must) == must && !(own && (s & MODEL) && !(s & ACQUI)) && count(s) <= max; }
// all sets of at most MAX roles within ALLOWED that contain MUST, in two orders
template <typename V, unsigned ALLOWED, unsigned MUST, bool OWN, int MAX = 7, unsigned SET = 0, unsigned END = 128>
struct Sets {
    static void add(Configs& cs, std::true_type)
    {
        Add<V, typename Up<SET, 0>::type>::to(cs);
        if (count(SET) > 1)
            Add<V, typename Down<SET, 0>::type>::to(cs);
    }
    static void add(Configs& cs, std::false_type) {}
    static void to(Configs& cs)
    {
        add(cs, std::integral_constant<bool, legal(SET, ALLOWED, MUST, OWN, MAX)>());
        Sets<V, ALLOWED, MUST, OWN, MAX, SET + 1, END>::to(cs);
    }
    static const Configs& all()
    {
        static Configs cs;
        if (cs.empty())
            to(cs);
        return cs;
    }
};
template <typename V, unsigned ALLOWED, unsigned MUST, bool OWN, int MAX, unsigned END>
struct Sets<V, ALLOWED, MUST, OWN, MAX, END, END> {
    static void to(Configs&) {}
};
#if PART <= 2 || PART == 6
template <int... R>
using BO = limbo::bayes_opt::BOptimizer<QP, typename Role<R>::type...>;
#endif
#if PART <= 1 // runs of BOptimizer, with and without an inner optimiser of one's own
struct Run {
    template <int... R>
    static void run(const std::vector<int>& o, const Setting& k)
    {
        observe<BO<R...>>(o, k, EXACT | USES_INNER | USES_ACQUI, [&](BO<R...>& bo) {
            bo.optimize(Fun<1, 0>());
            is(std::type_index(typeid(bo.model())) == (set(o) & MODEL ? TYPE(Model) : TYPE(Default)), "model", set(o), MODEL, name(o));
            mc::check(bo.model().nb_samples() == (int)bo.samples().size(), "model-data", name(o));
        });
    }
};
MC_SUITE(PART == 0 ? "runs_bo_a" : "runs_bo_b", [] { explore(Sets<Run, (PART == 0 ? 63 & ~ACQUIOPT : 63), (PART == 0 ? 0 : ACQUIOPT), true>::all()); }, 4);
#endif
#if PART == 2 || PART == 6 // the components of BOptimizer, in every order
struct Orders {
    template <int... R>
    static void visit()
    {
        base_types<BO<R...>>({R...});
        opt_types<BO<R...>>({R...});
    }
};
#if PART == 2
MC_SUITE("orders_bo_a", [] {
    Orders::visit<>();
    Each<Orders, 63, 6, 1, 0, 0>::run();
    Each<Orders, 63, 6, 2, 0, 1>::run();
    Each<Orders, 63, 6, 4, 0, 2>::run();
});
#else
MC_SUITE("orders_bo_b", [] {
    Each<Orders, 63, 6, 8, 0, 3>::run();
    Each<Orders, 63, 6, 16, 0, 4>::run();
    Each<Orders, 63, 6, 32, 0, 5>::run();
});
#endif
#endif
#if PART == 3 // the constrained and the partition-tree optimisers
template <int... R>
using CB = limbo::experimental::bayes_opt::CBOptimizer<QP, typename Role<R>::type...>;
struct Run {
    template <int... R>
    static void run(const std::vector<int>& o, const Setting& k)
    {
        observe<CB<R...>>(o, k, EXACT | USES_INNER | USES_ACQUI, [&](CB<R...>& bo) {
            bo.optimize(Fun<1, 2>());
            is(std::type_index(typeid(bo.model())) == (set(o) & MODEL ? TYPE(Model) : TYPE(Default)), "model", set(o), MODEL, name(o));
        });
        for (auto& m : last.constraint_models)
            is(m == (set(o) & CONSTRAINT ? TYPE(CModel) : TYPE(DefaultCModel)), "constraint-model", set(o), CONSTRAINT, name(o));
    }
};
MC_SUITE("runs_cbo", [] { explore(Sets<Run, 127 & ~INIT, ACQUI, false>::all()); }, 4);
struct Orders {
    template <int... R>
    static void visit()
    {
        base_types<CB<R...>>({R...});
        opt_types<CB<R...>>({R...});
        is(TYPE(typename CB<R...>::constraint_model_t) == (set({R...}) & CONSTRAINT ? TYPE(CModel) : TYPE(DefaultCModel)), "constraint-model", set({R...}), CONSTRAINT, name({R...}));
    }
};
MC_SUITE("orders_cbo", [] { Each<Orders, 127, 3, 0, 0>::run(); });
#endif
#if PART == 4 // the partition-tree and the multi-objective optimisers
template <int... R>
using IM = limbo::bayes_opt::experimental::IMGPO<QP, typename Role<R>::type...>;
template <int... R>
using EH = limbo::experimental::bayes_opt::Ehvi<QP, typename Role<R>::type...>;
template <int... R>
using NS = limbo::experimental::bayes_opt::Nsbo<QP, typename Role<R>::type...>;
struct RunIM {
    template <int... R>
    static void run(const std::vector<int>& o, const Setting& k)
    {
        observe<IM<R...>>(o, k, USES_ACQUI, [&](IM<R...>& bo) { bo.optimize(Fun<1, 0>()); });
    }
};
MC_SUITE("runs_imgpo", [] { explore(Sets<RunIM, 63 & ~ACQUIOPT, ACQUI, false>::all()); }, 2);
struct RunEH {
    template <int... R>
    static void run(const std::vector<int>& o, const Setting& k)
    {
        observe<EH<R...>>(o, k, EXACT | USES_INNER | SEVERAL, [&](EH<R...>& bo) {
            bo.optimize(Fun<2, 0>());
            is(std::type_index(typeid(bo.models()[0])) == (set(o) & MODEL ? TYPE(Model) : TYPE(Default)), "model", set(o), MODEL, name(o));
            mc::check(bo.models().size() == 2 && bo.models()[0].nb_samples() == (int)bo.samples().size(), "model-data", name(o));
        });
    }
};
MC_SUITE("runs_ehvi", [] { explore(Sets<RunEH, 63 & ~ACQUI, STATS, false>::all()); }, 2);
struct OrdersIM {
    template <int... R>
    static void visit() { base_types<IM<R...>>({R...}); }
};
MC_SUITE("orders_imgpo", [] { Each<OrdersIM, 63 & ~ACQUIOPT, 5, 0, 0>::run(); });
struct OrdersEH {
    template <int... R>
    static void visit()
    {
        base_types<EH<R...>>({R...});
        opt_types<EH<R...>>({R...});
    }
};
MC_SUITE("orders_ehvi", [] { Each<OrdersEH, 63 & ~ACQUI, 5, 0, 0>::run(); });
struct OrdersNS {
    template <int... R>
    static void visit() { base_types<NS<R...>>({R...}); }
};
MC_SUITE("orders_nsbo", [] { Each<OrdersNS, 63 & ~ACQUI & ~ACQUIOPT, 4, 0, 0>::run(); });
#endif
#if PART == 5 // Parego
template <int... R>
using PE = limbo::experimental::bayes_opt::Parego<QP, typename Role<R>::type...>;
struct Run {
    template <int... R>
    static void run(const std::vector<int>& o, const Setting& k)
    {
        observe<PE<R...>>(o, k, EXACT | USES_INNER | USES_ACQUI, [&](PE<R...>& bo) { bo.optimize(Fun<2, 0>()); });
    }
};
MC_SUITE("runs_parego", [] { explore(Sets<Run, 63, ACQUI, false, 5>::all()); }, 4);
struct Orders {
    template <int... R>
    static void visit()
    {
        base_types<PE<R...>>({R...});
        opt_types<PE<R...>>({R...});
    }
};
MC_SUITE("orders_parego", [] { Each<Orders, 63, 4, 0, 0>::run(); });
#endif
MC_MAIN
