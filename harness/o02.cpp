// O02: gradient ascent, Adam and Rprop follow their published rules for every sequence of answers.
#include "mc.hpp"
#include "zoo.hpp"
#include <limbo/opt/adam.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/rprop.hpp>
using Eigen::VectorXd;
using namespace limbo;
struct P {
    struct opt_gradient_ascent {
        VDYN(int, iterations)
        VDYN(double, alpha)
        VDYN(double, gamma)
        VDYN(bool, nesterov)
        VDYN(double, eps_stop)
    };
    struct opt_adam {
        VDYN(int, iterations)
        VDYN(double, alpha)
        VDYN(double, b1)
        VDYN(double, b2)
        VDYN(double, eps_stop)
    };
    struct opt_rprop {
        VDYN(int, iterations)
        VDYN(double, eps_stop)
    };
};
typedef std::vector<double> V;
static double clamp(double x, bool b) { return b ? std::min(1.0, std::max(0.0, x)) : x; }
// what a method does: where it looks next, and how it moves on an answer
struct Rule {
    int n, iterations;
    bool bounded, stopped = false;
    double eps;
    V x;
    V best;
    double best_value = -INFINITY;
    virtual V query() { return x; }
    virtual void answer(double value, const V& g) = 0; // moves x, sets stopped
    virtual bool keeps_best() const { return false; }
    void begin(const VectorXd& init, bool b, int its, double e)
    {
        n = init.size();
        bounded = b;
        iterations = its;
        eps = e;
        x.assign(n, 0);
        for (int i = 0; i < n; ++i)
            x[i] = clamp(init[i], b);
        best = x;
    }
    double moved(const V& a, const V& b)
    {
        double s = 0;
        for (int i = 0; i < n; ++i)
            s += (a[i] - b[i]) * (a[i] - b[i]);
        return std::sqrt(s);
    }
    virtual ~Rule() {}
};
struct GARule : Rule {
    double alpha, gamma;
    bool nesterov;
    V v;
    V query() override
    {
        V q = x;
        if (v.empty())
            v.assign(n, 0);
        if (nesterov)
            for (int i = 0; i < n; ++i)
                q[i] = clamp(x[i] + gamma * v[i], bounded);
        return q;
    }
    void answer(double, const V& g) override
    {
        V o = x;
        for (int i = 0; i < n; ++i) {
            v[i] = gamma * v[i] + alpha * g[i];
            x[i] = clamp(x[i] + v[i], bounded);
        }
        stopped = moved(o, x) < eps;
    }
};
struct AdamRule : Rule {
    double alpha, b1, b2;
    int t = 0;
    V m, s;
    void answer(double, const V& g) override
    {
        if (m.empty()) {
            m.assign(n, 0);
            s.assign(n, 0);
        }
        t++;
        V o = x;
        for (int i = 0; i < n; ++i) {
            m[i] = b1 * m[i] + (1 - b1) * g[i];
            s[i] = b2 * s[i] + (1 - b2) * g[i] * g[i];
            double mh = m[i] / (1 - std::pow(b1, t)), sh = s[i] / (1 - std::pow(b2, t));
            x[i] = clamp(x[i] + alpha * mh / (std::sqrt(sh) + 1e-8), bounded);
        }
        stopped = moved(o, x) < eps;
    }
};
struct RpropRule : Rule {
    V delta, old;
    bool keeps_best() const override { return true; }
    void answer(double, const V& g0) override
    {
        if (delta.empty()) {
            delta.assign(n, 0.1);
            old.assign(n, 0);
        }
        V g = g0;
        double norm = 0;
        for (int i = 0; i < n; ++i) {
            // after a change of sign: smaller step, no move and no memory
            if (old[i] * g[i] > 0)
                delta[i] = std::min(delta[i] * 1.2, 50.0);
            else if (old[i] * g[i] < 0) {
                delta[i] = std::max(delta[i] * 0.5, 1e-6);
                g[i] = 0;
            }
            x[i] = clamp(x[i] + (g[i] > 0 ? delta[i] : g[i] < 0 ? -delta[i] : 0), bounded);
            norm += g[i] * g[i];
        }
        old = g;
        stopped = std::sqrt(norm) < eps;
    }
};
static void compare(const VectorXd& x, const V& e, const char* key, int k)
{
    mc::check(x.size() == (int)e.size(), "dimension");
    for (size_t i = 0; i < e.size(); ++i)
        mc::check(std::abs(x[i] - e[i]) <= 1e-9 * std::max(1.0, std::abs(e[i])), key, mc::fmt("coordinate %zu of evaluation %d is %.15g, the rule gives %.15g", i, k, x[i], e[i]));
}
static bool moved_close(const VectorXd& x, const V& e)
{
    for (size_t i = 0; i < e.size(); ++i)
        if (std::abs(x[i] - e[i]) > 1e-9 * std::max(1.0, std::abs(e[i])))
            return false;
    return true;
}
// run an optimiser against its rule; answers are given by `ask`
template <typename O, typename Ask>
void drive(Rule& r, const VectorXd& init, bool bounded, const Ask& ask)
{
    int k = 0;
    uint64_t h = 7;
    double best = -INFINITY;
    std::vector<V> best_points;
    auto f = [&](const VectorXd& x, bool g) {
        mc::op();
        mc::check(g, "no-gradient-asked");
        mc::check(k < r.iterations, "over-budget", mc::fmt("evaluation %d with a budget of %d", k + 1, r.iterations));
        mc::check(!r.stopped, "stopped-late", mc::fmt("evaluation %d after the tolerance was met", k + 1));
        V q = r.query();
        compare(x, q, "iterate", k);
        if (bounded)
            mc::check(x.minCoeff() >= 0 && x.maxCoeff() <= 1, "outside-the-cube", zoo::str(x));
        V gr(r.n);
        double val = ask(k, gr);
        if (val > best) {
            best = val;
            best_points.clear();
        }
        if (val == best)
            best_points.push_back(q);
        r.answer(val, gr);
        k++;
        h = mc::hash_bytes(q.data(), 8 * q.size(), h);
        VectorXd gv(r.n);
        for (int i = 0; i < r.n; ++i)
            gv[i] = gr[i];
        return opt::eval_t{val, boost::optional<VectorXd>(gv)};
    };
    VectorXd res = O()(f, init, bounded);
    mc::state(h);
    mc::check(r.stopped || k == r.iterations, "stopped-early", mc::fmt("%d evaluations of %d, and the tolerance was not met", k, r.iterations));
    mc::check(res.size() == r.n, "result-dimension");
    if (bounded)
        mc::check(res.minCoeff() >= 0 && res.maxCoeff() <= 1, "result-outside-the-cube", zoo::str(res));
    if (!r.keeps_best())
        compare(res, r.x, "result", k);
    else if (best == -INFINITY)
        compare(res, r.best, "result", k); // nothing better than the start
    else {
        bool one = false;
        for (auto& b : best_points)
            one |= moved_close(res, b);
        mc::check(one, "result-is-not-the-best-evaluated", mc::fmt("%s returned, the best value is %g", zoo::str(res).c_str(), best));
    }
}

// ---- alphabets
static const std::vector<V> G1 = {{1}, {-1}, {0}, {-3e-4}, {70}};
static const std::vector<V> G2 = {{1, -1}, {-1, -1}, {0, 2}, {-3e-4, 0}, {50, 1e-5}, {-2, 1}};
static const std::vector<V> G3 = {{1, -1, 0}, {-1, 2, 1e-4}, {1, 1, -30}, {0, 0, 0}};
static const std::vector<V>& alphabet(int n) { return n == 1 ? G1 : n == 2 ? G2 : G3; }
static const std::vector<VectorXd>& inits(int n)
{
    static std::map<int, std::vector<VectorXd>> m;
    if (m.empty())
        for (int d = 1; d <= 3; ++d) {
            m[d].push_back(VectorXd::Constant(d, 0.5));
            VectorXd v(d), w(d);
            for (int i = 0; i < d; ++i) {
                v[i] = i % 2 ? 1 : 0;
                w[i] = i % 2 ? -0.7 : 1.4;
            }
            m[d].push_back(v);
            m[d].push_back(w);
        }
    return m[n];
}
static void setup(GARule& r, int its, double eps)
{
    static const double A[] = {0.1, 0.9}, GM[] = {0, 0.6};
    r.alpha = A[mc::choose(2)];
    r.gamma = GM[mc::choose(2)];
    r.nesterov = r.gamma > 0 && mc::flip();
    P::opt_gradient_ascent::set_iterations(its);
    P::opt_gradient_ascent::set_alpha(r.alpha);
    P::opt_gradient_ascent::set_gamma(r.gamma);
    P::opt_gradient_ascent::set_nesterov(r.nesterov);
    P::opt_gradient_ascent::set_eps_stop(eps);
}
static void setup(AdamRule& r, int its, double eps)
{
    static const double A[] = {0.05, 0.4}, B1[] = {0.9, 0.0, 0.3}, B2[] = {0.999, 0.0, 0.6};
    int k = mc::choose(3);
    r.alpha = A[mc::choose(2)];
    r.b1 = B1[k];
    r.b2 = B2[k];
    P::opt_adam::set_iterations(its);
    P::opt_adam::set_alpha(r.alpha);
    P::opt_adam::set_b1(r.b1);
    P::opt_adam::set_b2(r.b2);
    P::opt_adam::set_eps_stop(eps);
}
static void setup(RpropRule&, int its, double eps)
{
    P::opt_rprop::set_iterations(its);
    P::opt_rprop::set_eps_stop(eps);
}
static const double EPS[] = {0, 0.0123457, 0.31371, 1e9};
template <typename O, typename R>
void explore(int n, int depth, int nvalues, int ngrad)
{
    static const double VAL[] = {1, -2, -INFINITY, 5, 1};
    bool bounded = mc::flip();
    int its = mc::choose(depth + 1);
    double eps = EPS[mc::choose(4)];
    const VectorXd& init = mc::pick(inits(n));
    R r;
    setup(r, its, eps);
    mc::shard();
    r.begin(init, bounded, its, eps);
    drive<O>(r, init, bounded, [&](int, V& g) {
        const std::vector<V>& a = alphabet(n);
        g = a[mc::choose(std::min<int>(ngrad, a.size()))];
        return nvalues > 1 ? VAL[mc::choose(nvalues)] : 0.0;
    });
}
typedef opt::GradientAscent<P> GA;
typedef opt::Adam<P> AD;
typedef opt::Rprop<P> RP;
MC_SUITE("ga_1", [] { explore<GA, GARule>(1, mc::tier(4, 6), 1, 5); }, 8);
MC_SUITE("ga_2", [] { explore<GA, GARule>(2, mc::tier(4, 5), 1, 6); }, 8);
MC_SUITE("ga_3", [] { explore<GA, GARule>(3, mc::tier(4, 6), 1, 4); }, 8);
MC_SUITE("adam_1", [] { explore<AD, AdamRule>(1, mc::tier(4, 6), 1, 5); }, 8);
MC_SUITE("adam_2", [] { explore<AD, AdamRule>(2, mc::tier(4, 5), 1, 6); }, 8);
MC_SUITE("adam_3", [] { explore<AD, AdamRule>(3, mc::tier(4, 6), 1, 4); }, 8);
MC_SUITE("rprop_1", [] { explore<RP, RpropRule>(1, mc::tier(6, 8), 1, 5); }, 8);
MC_SUITE("rprop_2", [] { explore<RP, RpropRule>(2, mc::tier(5, 7), 1, 6); }, 8);
MC_SUITE("rprop_3", [] { explore<RP, RpropRule>(3, mc::tier(6, 8), 1, 4); }, 8);
MC_SUITE("rprop_best_1", [] { explore<RP, RpropRule>(1, mc::tier(4, 5), 4, 3); }, 8);
MC_SUITE("rprop_best_2", [] { explore<RP, RpropRule>(2, mc::tier(3, 4), 4, 6); }, 8);
// long runs on periodic answers: every prefix and cycle, until the steps saturate
template <typename O, typename R>
void lasso(int n, int its, double scale)
{
    bool bounded = mc::flip();
    double eps = mc::flip() ? 1e-9 : 0;
    R r;
    setup(r, its, eps);
    int p = mc::choose(3), c = 1 + mc::choose(3);
    std::vector<int> seq;
    for (int i = 0; i < p + c; ++i)
        seq.push_back(mc::choose(3));
    mc::shard();
    VectorXd init = VectorXd::Constant(n, 0.45);
    r.begin(init, bounded, its, eps);
    drive<O>(r, init, bounded, [&](int k, V& g) {
        int i = k < p ? k : p + (k - p) % c;
        g = alphabet(n)[seq[i]];
        for (double& d : g)
            d *= scale;
        return k % 3 == 1 ? 3.0 + k * 0.01 : -5.0 * k; // the best is somewhere in the middle
    });
}
MC_SUITE("rprop_long_1", [] { lasso<RP, RpropRule>(1, mc::tier(60, 200), 1); }, 8);
MC_SUITE("rprop_long_2", [] { lasso<RP, RpropRule>(2, mc::tier(60, 200), 1); }, 8);
MC_SUITE("adam_long_1", [] { lasso<AD, AdamRule>(1, mc::tier(60, 200), 1e-3); }, 8);
MC_SUITE("adam_long_2", [] { lasso<AD, AdamRule>(2, mc::tier(60, 200), 10); }, 8);
MC_SUITE("ga_long_1", [] { lasso<GA, GARule>(1, mc::tier(60, 200), 0.2); }, 8);
MC_SUITE("ga_long_2", [] { lasso<GA, GARule>(2, mc::tier(60, 200), 0.05); }, 8);
MC_MAIN
