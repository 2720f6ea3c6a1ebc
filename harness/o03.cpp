// O03: the NLOpt wrappers over sequences of uses of one object.
#include "mc.hpp"
#include "zoo.hpp"
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
using Eigen::VectorXd;
using namespace limbo;
struct P {
    struct opt_nloptgrad {
        VDYN(int, iterations)
        VDYN(double, fun_tolerance)
        VDYN(double, xrel_tolerance)
    };
    struct opt_nloptnograd {
        VDYN(int, iterations)
        VDYN(double, fun_tolerance)
        VDYN(double, xrel_tolerance)
    };
};
static int budget = 0;
static void set_budget(int n)
{
    budget = n;
    P::opt_nloptgrad::set_iterations(n);
    P::opt_nloptnograd::set_iterations(n);
    P::opt_nloptgrad::set_fun_tolerance(-1);
    P::opt_nloptgrad::set_xrel_tolerance(-1);
    P::opt_nloptnograd::set_fun_tolerance(-1);
    P::opt_nloptnograd::set_xrel_tolerance(-1);
}
// 0: peak inside the cube, 1: peak outside of it, 2: anisotropic and rotated peak inside, 3: slope (bounded only), 4: constant
static const int OBJECTIVES = 5;
static double value(int o, const VectorXd& x, VectorXd& g)
{
    int d = x.size();
    g = VectorXd::Zero(d);
    double v = o == 4 ? 7 : -3;
    for (int i = 0; i < d; ++i) {
        double c = i % 2 ? 0.3 : 0.6;
        if (o == 0) {
            v -= (x[i] - c) * (x[i] - c);
            g[i] = -2 * (x[i] - c);
        }
        if (o == 1) {
            double k = i % 2 ? -1.4 : 2.2;
            v -= (x[i] - k) * (x[i] - k);
            g[i] = -2 * (x[i] - k);
        }
        if (o == 2) {
            double w = 1 + 3 * i;
            v -= w * (x[i] - c) * (x[i] - c);
            g[i] -= 2 * w * (x[i] - c);
            if (i) {
                v -= 0.8 * (x[i] - c) * (x[0] - 0.6);
                g[i] -= 0.8 * (x[0] - 0.6);
                g[0] -= 0.8 * (x[i] - c);
            }
        }
        if (o == 3) {
            double s = i % 2 ? -1 : 2;
            v += s * x[i];
            g[i] = s;
        }
    }
    return v;
}
struct Use {
    int dim, obj, start;
    bool bounded;
    std::string str() const { return mc::fmt("use(dim %d, objective %d, start %d, %s)", dim, obj, start, bounded ? "bounded" : "unbounded"); }
};
static VectorXd start_of(const Use& u)
{
    VectorXd v(u.dim);
    for (int i = 0; i < u.dim; ++i)
        v[i] = u.start == 0 ? 0.45 : (i % 2 ? 0.9 : 0.2);
    return v;
}
struct Run {
    std::vector<VectorXd> points;
    VectorXd result;
};
// the objectives live until the end of the history, each at its own address
struct Objective {
    Use u;
    bool grad;
    mutable Run r;
    mutable double best = -INFINITY;
    Objective(const Use& u, bool grad) : u(u), grad(grad) {}
    opt::eval_t operator()(const VectorXd& x, bool g) const
    {
        mc::op();
        mc::check(x.size() == u.dim, "dimension", mc::fmt("asked at a point of dimension %d instead of %d", (int)x.size(), u.dim));
        mc::check(!g || grad, "gradient-asked");
        mc::check((int)r.points.size() < budget, "over-budget", mc::fmt("more than %d evaluations", budget));
        if (u.bounded)
            mc::check(x.minCoeff() >= 0 && x.maxCoeff() <= 1, "evaluated-outside-the-cube", zoo::str(x));
        r.points.push_back(x);
        VectorXd gr;
        double v = value(u.obj, x, gr);
        best = std::max(best, v);
        if (!g)
            return opt::no_grad(v);
        return opt::eval_t{v, boost::optional<VectorXd>(gr)};
    }
};
static std::vector<std::shared_ptr<Objective>>& objectives()
{
    static std::vector<std::shared_ptr<Objective>> o;
    return o;
}
// runs one use and checks everything that does not depend on the history
// quality: 2 the best point evaluated is returned, 1 (PRAXIS) nearly, 0 (global methods) nearly once the budget is large
template <typename O>
Run use(O& opt, const Use& u, bool grad, bool local, int quality)
{
    nlopt::srand(11);
    objectives().emplace_back(new Objective(u, grad));
    Objective& f = *objectives().back();
    Run& r = f.r;
    double& best = f.best;
    VectorXd init = start_of(u);
    r.result = opt(f, init, u.bounded);
    mc::check(r.result.size() == u.dim, "result-dimension", u.str());
    VectorXd g;
    double v = value(u.obj, r.result, g), v0 = value(u.obj, init, g);
    mc::check(!r.points.empty(), "nothing-evaluated", "the objective was never evaluated: " + u.str());
    if (u.bounded)
        mc::check(r.result.minCoeff() >= 0 && r.result.maxCoeff() <= 1, "result-outside-the-cube", zoo::str(r.result));
    if (local)
        mc::check(v >= v0 - 1e-12 * std::abs(v0), "worse-than-the-start", mc::fmt("%g returned, %g at the start (%s)", v, v0, u.str().c_str()));
    double slack = quality == 2 ? 1e-7 * std::max(1.0, std::abs(best)) : 0.05;
    if (quality > 0 || budget >= 200)
        mc::check(v >= best - slack, "not-the-best-evaluated", mc::fmt("%.12g returned, %.12g evaluated (%s)", v, best, u.str().c_str()));
    if (u.bounded)
        mc::check(v <= 7 + 1e-9 && v >= value(u.obj, VectorXd::Constant(u.dim, -1000), g), "value");
    if (budget >= 200 && local && u.obj < (quality == 2 ? 2 : 1)) { // a quadratic: the peak of the domain is found
        VectorXd c(u.dim);
        for (int i = 0; i < u.dim; ++i) {
            c[i] = u.obj == 0 ? (i % 2 ? 0.3 : 0.6) : (i % 2 ? -1.4 : 2.2);
            if (u.bounded)
                c[i] = std::min(1.0, std::max(0.0, c[i]));
        }
        mc::check(v >= value(u.obj, c, g) - (quality == 2 ? 1e-3 : 0.1), "optimum-missed", mc::fmt("%g returned at %s, %g possible at %s (%s)", v, zoo::str(r.result).c_str(), value(u.obj, c, g), zoo::str(c).c_str(), u.str().c_str()));
    }
    mc::state(mc::hash_bytes(r.result.data(), 8 * u.dim, u.dim));
    return r;
}
template <typename O>
void uses(bool grad, bool local, bool unbounded, int quality)
{
    static const int B[] = {1, 7, 200};
    set_budget(B[mc::choose(3)]);
    objectives().clear();
    int n = 1 + mc::choose(mc::tier(2, 3));
    std::vector<Use> us;
    for (int i = 0; i < n; ++i) {
        Use u;
        u.bounded = unbounded ? mc::flip() : true;
        u.dim = 1 + mc::choose(3);
        if (i + 1 < n) {
            u.obj = mc::choose(2) ? 1 : 2;
            u.start = 0;
        }
        else {
            u.obj = mc::choose(OBJECTIVES);
            u.start = mc::choose(2);
        }
        if (i == 0)
            mc::shard();
        if (!u.bounded && u.obj == 3)
            u.obj = 1;
        us.push_back(u);
    }
    O one;
    for (int i = 0; i < n; ++i) {
        mc::note(us[i].str());
        Run r = use(one, us[i], grad, local, quality);
        if (i + 1 == n && n > 1) {
            O fresh;
            Run s = use(fresh, us[i], grad, local, quality);
            bool same = r.points.size() == s.points.size() && (r.result - s.result).cwiseAbs().maxCoeff() < 1e-9;
            for (size_t k = 0; same && k < r.points.size(); ++k)
                same = (r.points[k] - s.points[k]).cwiseAbs().maxCoeff() < 1e-9;
            mc::check(same, "reuse-differs-from-fresh", mc::fmt("%zu evaluations and %s, a fresh object needs %zu and gives %s", r.points.size(), zoo::str(r.result).c_str(), s.points.size(), zoo::str(s.result).c_str()));
        }
    }
}
template <nlopt::algorithm A>
using NG = opt::NLOptNoGrad<P, A>;
template <nlopt::algorithm A>
using GR = opt::NLOptGrad<P, A>;
#define LOCAL(n, A) MC_SUITE(n, [] { uses<NG<nlopt::A>>(false, true, true, nlopt::A == nlopt::LN_PRAXIS ? 1 : 2); }, 4)
#define GLOBAL(n, A) MC_SUITE(n, [] { uses<NG<nlopt::A>>(false, false, false, 0); }, 4)
#define GRAD(n, A) MC_SUITE(n, [] { uses<GR<nlopt::A>>(true, true, true, 2); }, 4)
LOCAL("cobyla", LN_COBYLA);
LOCAL("praxis", LN_PRAXIS);
LOCAL("neldermead", LN_NELDERMEAD);
LOCAL("sbplx", LN_SBPLX);
GLOBAL("direct", GN_DIRECT);
GLOBAL("direct_l", GN_DIRECT_L);
GLOBAL("direct_l_rand", GN_DIRECT_L_RAND);
GLOBAL("direct_noscal", GN_DIRECT_NOSCAL);
GLOBAL("direct_l_noscal", GN_DIRECT_L_NOSCAL);
GLOBAL("direct_l_rand_noscal", GN_DIRECT_L_RAND_NOSCAL);
GLOBAL("orig_direct", GN_ORIG_DIRECT);
GLOBAL("orig_direct_l", GN_ORIG_DIRECT_L);
GLOBAL("crs", GN_CRS2_LM);
GLOBAL("isres", GN_ISRES);
GLOBAL("esch", GN_ESCH);
GRAD("mma", LD_MMA);
GRAD("slsqp", LD_SLSQP);
GRAD("lbfgs", LD_LBFGS);
GRAD("tnewton", LD_TNEWTON);
GRAD("tnewton_restart", LD_TNEWTON_RESTART);
GRAD("tnewton_precond", LD_TNEWTON_PRECOND);
GRAD("tnewton_precond_restart", LD_TNEWTON_PRECOND_RESTART);
GRAD("var1", LD_VAR1);
GRAD("var2", LD_VAR2);
GRAD("ccsaq", LD_CCSAQ);
// ---- constraints a'x <= b and a'x = b, registered after initialize()
static double A1 = 0, A2 = 0, BB = 0;
static opt::eval_t constraint(const VectorXd& x, bool g)
{
    mc::op();
    double v = A1 * x[0] + A2 * x[1] - BB;
    if (!g)
        return opt::no_grad(v);
    return opt::eval_t{v, boost::optional<VectorXd>((VectorXd(2) << A1, A2).finished())};
}
template <typename O>
void constrained(bool equality)
{
    static const double C[][3] = {{1, 1, 0.5}, {-1, -3, -1.2}, {1, -1, 0.1}, {0, 1, 0.2}, {2, 1, 5}};
    bool bounded = mc::flip();
    int c = mc::choose(equality ? 4 : 5), o = mc::choose(3), s = mc::choose(2), again = mc::choose(2);
    mc::shard();
    set_budget(400);
    A1 = C[c][0];
    A2 = C[c][1];
    BB = C[c][2];
    O opt;
    opt.initialize(2);
    if (equality)
        opt.add_equality_constraint(constraint, 1e-8);
    else
        opt.add_inequality_constraint(constraint, 1e-8);
    for (int k = 0; k <= again; ++k) {
        Use u{2, k ? (o + 1) % 3 : o, s, k ? !bounded : bounded};
        VectorXd g;
        auto f = [&](const VectorXd& x, bool gr) {
            mc::op();
            if (u.bounded)
                mc::check(x.minCoeff() >= -1e-12 && x.maxCoeff() <= 1 + 1e-12, "evaluated-outside-the-cube", zoo::str(x));
            VectorXd gg;
            double v = value(u.obj, x, gg);
            return gr ? opt::eval_t{v, boost::optional<VectorXd>(gg)} : opt::no_grad(v);
        };
        VectorXd r = opt(f, start_of(u), u.bounded);
        double viol = A1 * r[0] + A2 * r[1] - BB;
        mc::check(equality ? std::abs(viol) < 1e-4 : viol < 1e-4, "constraint-violated", mc::fmt("violated by %g at %s, constraint %g x + %g y %s %g (%s)", viol, zoo::str(r).c_str(), A1, A2, equality ? "=" : "<=", BB, u.str().c_str()));
        // the best feasible point (dense search) is not much better
        double best = -INFINITY;
        for (int i = 0; i <= 400; ++i)
            for (int j = 0; j <= (equality ? 0 : 400); ++j) {
                double lo = u.bounded ? 0 : -3, hi = u.bounded ? 1 : 3;
                VectorXd x(2);
                if (!equality)
                    x << lo + (hi - lo) * i / 400, lo + (hi - lo) * j / 400;
                else if (A2 != 0)
                    x << lo + (hi - lo) * i / 400, (BB - A1 * (lo + (hi - lo) * i / 400)) / A2;
                if (u.bounded && (x[1] < 0 || x[1] > 1))
                    continue;
                if (A1 * x[0] + A2 * x[1] <= BB + 1e-9)
                    best = std::max(best, value(u.obj, x, g));
            }
        mc::check(value(u.obj, r, g) <= best + 0.1, "oracle");
        mc::state(mc::hash_bytes(r.data(), 16));
    }
}
MC_SUITE("cobyla_inequality", [] { constrained<NG<nlopt::LN_COBYLA>>(false); }, 4);
MC_SUITE("cobyla_equality", [] { constrained<NG<nlopt::LN_COBYLA>>(true); }, 4);
MC_SUITE("mma_inequality", [] { constrained<GR<nlopt::LD_MMA>>(false); }, 4);
MC_SUITE("slsqp_inequality", [] { constrained<GR<nlopt::LD_SLSQP>>(false); }, 4);
MC_SUITE("slsqp_equality", [] { constrained<GR<nlopt::LD_SLSQP>>(true); }, 4);
MC_SUITE("ccsaq_inequality", [] { constrained<GR<nlopt::LD_CCSAQ>>(false); }, 4);
MC_MAIN
