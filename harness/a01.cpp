// A01: acquisition values against their formulas, on scripted and on real models.
#include "gpsys.hpp"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/experimental/acqui/eci.hpp>
using namespace limbo;
typedef ref::LD LD;
struct AP {
    struct acqui_ucb {
        VDYN(double, alpha)
    };
    struct acqui_gpucb {
        BO_PARAM(double, delta, 0.1);
    };
    struct acqui_ei {
        VDYN(double, jitter)
    };
    struct acqui_eci {
        VDYN(double, jitter)
    };
};
template <int D100>
struct GP_ {
    struct acqui_gpucb {
        BO_PARAM(double, delta, D100 / 100.0);
    };
};
static const LD PI = 3.14159265358979323846264338327950288L;
static LD Phi(LD z) { return erfcl(-z / sqrtl(2)) / 2; }
static LD phi(LD z) { return expl(-z * z / 2) / sqrtl(2 * PI); }
static LD ei(LD mu, LD sigma, LD best, LD jitter)
{
    LD x = mu - best - jitter, z = x / sigma;
    return x * Phi(z) + sigma * phi(z);
}
static LD kappa(int n, int dim, double delta)
{
    return sqrtl(2 * logl(powl(n, dim / 2.0L + 2) * PI * PI / (3 * (LD)delta)));
}
static bool near(double a, LD b, LD scale) { return std::isfinite(a) && fabsl((LD)a - b) <= 1e-9L * std::max<LD>(scale, fabsl(b)); }
static double value(const opt::eval_t& r, const char* who)
{
    mc::op();
    mc::check(!r.second.is_initialized(), "gradient-invented", who);
    mc::check(std::isfinite(r.first), mc::fmt("%s-not-finite", who), mc::fmt("%g", r.first));
    return r.first;
}
// -------------------------------------------------------------- scripted model
struct Fake {
    std::vector<VectorXd> X, M; // training points and the predictions there
    VectorXd mu_q;
    double s2 = 0;
    int din = 1, dout = 1;
    size_t dim_in() const { return din; }
    size_t dim_out() const { return dout; }
    const std::vector<VectorXd>& samples() const { return X; }
    const std::vector<VectorXd>& observations() const { return M; }
    int nb_samples() const { return X.size(); }
    VectorXd mu(const VectorXd& v) const
    {
        for (size_t i = 0; i < X.size(); ++i)
            if (X[i] == v)
                return M[i];
        return mu_q;
    }
    double sigma(const VectorXd&) const { return s2; }
    std::tuple<VectorXd, double> query(const VectorXd& v) const { return std::make_tuple(mu(v), s2); }
};
struct First {
    double operator()(const VectorXd& y) const { return y[0]; }
};
struct Comb {
    double operator()(const VectorXd& y) const { return y.size() > 1 ? 0.5 * y[0] - 2 * y[1] : -y[0]; }
};
static const std::vector<double> MUS = {0, 1, -1, 3.5, 1e6, -1e6}, S2 = {0, 1e-30, 1e-24, 1e-18, 1e-8, 0.01, 1, 9, 1e8};
template <typename A>
void scripted_ucb(const A& afun, int dout)
{
    Fake f;
    f.dout = dout;
    f.mu_q = VectorXd::Constant(dout, mc::pick(MUS));
    if (dout > 1)
        f.mu_q[1] = mc::pick(MUS);
    f.s2 = mc::pick(S2);
    double s = std::sqrt(f.s2);
    VectorXd v = VectorXd::Constant(1, 0.3);
    for (double a : {0.0, 0.5, 2.0, 100.0}) {
        AP::acqui_ucb::set_alpha(a);
        acqui::UCB<AP, Fake> u(f, 3);
        double r = value(u(v, afun, false), "ucb");
        mc::check(near(r, (LD)afun(f.mu_q) + (LD)a * s, 1e-3), "ucb-value", mc::fmt("%.15g, alpha %g, mu %g, sigma %g", r, a, afun(f.mu_q), s));
        mc::check(u.dim_in() == 1 && (int)u.dim_out() == dout, "ucb-dimensions");
    }
    mc::state(mc::hash_bytes(f.mu_q.data(), 8 * dout, (uint64_t)(f.s2 * 1e9)));
}
MC_SUITE("ucb_1", [] { scripted_ucb(First(), 1); });
MC_SUITE("ucb_2", [] { scripted_ucb(Comb(), 2); });
template <int D>
void gpucb(int din, int n)
{
    typedef GP_<D> P;
    Fake f;
    f.din = din;
    f.mu_q = VectorXd::Constant(1, mc::pick(MUS));
    f.s2 = S2[mc::choose(3) * 3 + 2];
    VectorXd v = VectorXd::Constant(din, 0.3);
    acqui::GP_UCB<P, Fake> u(f, n);
    double r = value(u(v, First(), false), "gp_ucb");
    LD s = sqrtl(f.s2);
    if (n == 0) // no past evaluation: the formula is undefined, the value must still be usable
        mc::check(r >= f.mu_q[0] - 1e-9 * std::abs(f.mu_q[0]), "gp_ucb-below-mean");
    else
        mc::check(near(r, f.mu_q[0] + kappa(n, din, D / 100.0) * s, 1e-3), "gp_ucb-value", mc::fmt("%.15g instead of %.15Lg (n=%d, D=%d)", r, f.mu_q[0] + kappa(n, din, D / 100.0) * s, n, din));
    mc::check((int)u.dim_in() == din && u.dim_out() == 1, "gp_ucb-dimensions");
    mc::state(mc::fmt("g%d %d", n, din));
}
MC_SUITE("gp_ucb_10", [] { int d = 1 + mc::choose(6), n = mc::choose(mc::tier(400, 3000)); gpucb<10>(d, n); });
MC_SUITE("gp_ucb_100", [] { int d = 1 + mc::choose(6), n = mc::choose(mc::tier(400, 3000)); gpucb<100>(d, n); });
MC_SUITE("gp_ucb_1", [] { int d = 1 + mc::choose(6), n = mc::choose(mc::tier(400, 3000)); gpucb<1>(d, n); });
MC_SUITE("gp_ucb_large", [] { static const int N[] = {10000, 1000000, 46341, 65536, 2000000000}; int d = 1 + mc::choose(10), k = mc::choose(5); gpucb<10>(d, N[k]); });
static void check_ei(double r, LD mu, LD sigma, LD best, LD jitter, LD pf, const char* who)
{
    if (sigma == 0) {
        mc::check(r == 0 || near(r, pf * std::max<LD>(0, mu - best - jitter), 1e-9L), mc::fmt("%s-zero-variance", who), mc::fmt("%g", r));
        return;
    }
    mc::check(r >= -1e-300, mc::fmt("%s-negative", who), mc::fmt("%g", r));
    LD e = pf * ei(mu, sigma, best, jitter);
    bool ok = near(r, e, 1e-6L * sigma);
    if (sigma < 1e-9L) // documented to be 0 where the variance vanishes
        ok |= r == 0;
    mc::check(ok, mc::fmt("%s-value", who), mc::fmt("%.15g instead of %.15Lg (mu %Lg, sigma %Lg, best %Lg, jitter %Lg)", r, e, mu, sigma, best, jitter));
}
// scripted EI: every prediction at the point and at up to three training points, the functor called after every addition
template <typename A>
void scripted_ei(const A& afun, int dout, double jitter, int n)
{
    AP::acqui_ei::set_jitter(jitter);
    Fake f;
    f.dout = dout;
    f.mu_q = VectorXd::Constant(dout, mc::pick(MUS));
    f.s2 = mc::pick(S2);
    mc::shard();
    VectorXd v = VectorXd::Constant(1, 0.3);
    acqui::EI<AP, Fake> u(f);
    mc::check(value(u(v, afun, false), "ei") == 0, "ei-without-data", "expected improvement is not 0 without observations");
    LD best = -INFINITY;
    for (int i = 0; i < n; ++i) {
        f.X.push_back(VectorXd::Constant(1, i + 1));
        VectorXd m = VectorXd::Constant(dout, mc::pick(MUS));
        if (dout > 1)
            m[1] = 0.3 * i - 0.2;
        f.M.push_back(m);
        best = std::max(best, (LD)afun(m));
        check_ei(value(u(v, afun, false), "ei"), afun(f.mu_q), sqrtl(f.s2), best, jitter, 1, "ei");
    }
    mc::state(mc::fmt("%Lg %g", best, f.s2));
}
MC_SUITE("ei_1", [] { scripted_ei(First(), 1, 0, 3); }, 4);
MC_SUITE("ei_1j", [] { scripted_ei(Comb(), 1, 0.7, 3); }, 4);
MC_SUITE("ei_2", [] { scripted_ei(Comb(), 2, -0.25, 3); }, 4);
MC_SUITE("eci", [] {
    double jitter = mc::flip() ? 0.3 : 0;
    AP::acqui_eci::set_jitter(jitter);
    Fake f, c;
    f.mu_q = VectorXd::Constant(1, mc::pick(MUS));
    f.s2 = mc::pick(S2);
    c.mu_q = VectorXd::Constant(1, mc::pick(MUS));
    c.s2 = mc::pick(S2);
    mc::shard();
    VectorXd v = VectorXd::Constant(1, 0.3);
    experimental::acqui::ECI<AP, Fake, Fake> u(f, c);
    mc::check(value(u(v, First(), false), "eci") == 0, "eci-without-data");
    LD best = -INFINITY;
    for (int i = 0; i < 2; ++i) {
        f.X.push_back(VectorXd::Constant(1, i + 1));
        f.M.push_back(VectorXd::Constant(1, mc::pick(MUS)));
        c.X.push_back(VectorXd::Constant(1, i + 1));
        c.M.push_back(VectorXd::Constant(1, i));
        best = std::max(best, (LD)f.M.back()[0]);
        double r = value(u(v, First(), false), "eci");
        LD sc = sqrtl(c.s2), pf = sc > 0 ? Phi((c.mu_q[0] - 1) / sc) : 1;
        if (sc < 1e-9L)
            continue; // no uncertainty on the constraint: the probability is not defined
        check_ei(r, f.mu_q[0], sqrtl(f.s2), best, jitter, pf, "eci");
    }
}, 8);
// -------------------------------------------------------------- real models
template <template <typename> class KT, template <typename> class MT, typename A>
struct Sys : GPSys<zoo::P0, KT, MT> {
    typedef GPSys<zoo::P0, KT, MT> B;
    typedef typename B::G G;
    acqui::EI<AP, G> e;
    acqui::UCB<AP, G> u;
    A afun;
    size_t cached_n = -1;
    LD cached = 0;
    int n = 5;
    Sys(int a, int b, int i) : B(a, b, i), e(this->gp), u(this->gp) {}
    int nops() const { return 18; }
    void verify() override
    {
        if (this->r.din <= 0)
            return;
        if (!this->ready && this->r.X.empty() && this->gp.dim_in() == 0)
            return;
        // evaluate now, or only later
        if (mc::flip())
            return;
        LD best = -INFINITY;
        for (auto& x : this->r.X) {
            ref::Vec m = this->r.mu(x);
            best = std::max(best, (LD)afun(m.template cast<double>()));
        }
        if (cached_n != this->r.X.size()) {
            cached_n = this->r.X.size();
            cached = best;
        }
        acqui::GP_UCB<AP, G> g(this->gp, n);
        for (int q : {4, 0, 8}) {
            VectorXd v = zoo::point(q, this->r.din);
            v[0] += q == 4 ? 0.01 : 0;
            LD mu = afun(this->r.mu(v).template cast<double>()), s = sqrtl(this->r.var(v));
            double a = value(u(v, afun, false), "ucb"), b = value(g(v, afun, false), "gp_ucb"), c = value(e(v, afun, false), "ei");
            mc::check(fabsl(a - (mu + 0.8L * s)) < 1e-5L, "ucb-value", mc::fmt("%.12g instead of %.12Lg", a, mu + 0.8L * s));
            mc::check(u.dim_in() == (size_t)this->r.din && e.dim_in() == (size_t)this->r.din, "dimensions");
            mc::check(fabsl(b - (mu + kappa(n, this->r.din, 0.1) * s)) < 1e-5L, "gp_ucb-value");
            LD k = this->r.X.empty() ? 0 : ei(mu, s, best, 0.1), old = this->r.X.empty() ? 0 : ei(mu, s, cached, 0.1);
            mc::check(c >= -1e-300, "ei-negative");
            if (fabsl(c - k) < 1e-5L)
                continue;
            if (fabsl(c - old) < 1e-5L && fabsl(cached - best) > 1e-7L) {
                mc::count("ei-keeps-best-after-refit"); // see the suite ei_refit
                continue;
            }
            mc::fail("ei-value", mc::fmt("%.12g instead of %.12Lg", c, k));
        }
        mc::state(this->hash());
    }
};
template <typename S>
void real(int depth)
{
    AP::acqui_ucb::set_alpha(0.8);
    AP::acqui_ei::set_jitter(0.1);
    run<S>(D{{1, 1}, {2, 2}}, depth, 2);
}
MC_SUITE("real_exp_data", [] { real<Sys<zoo::KExp, zoo::MData, First>>(mc::tier(3, 4)); }, 24);
MC_SUITE("real_ard_const", [] { real<Sys<zoo::KARD, zoo::MConst, Comb>>(mc::tier(3, 4)); }, 24);
MC_SUITE("real_m52_null", [] { real<Sys<zoo::KM52, zoo::MNull, Comb>>(mc::tier(3, 4)); }, 24);
// gp-ucb on a real model, every iteration
MC_SUITE("real_gp_ucb", [] {
    int n = mc::choose(50), nx = mc::choose(4), din = 1 + mc::choose(2);
    typedef Sys<zoo::KExp, zoo::MData, First> S;
    AP::acqui_ucb::set_alpha(0.8);
    AP::acqui_ei::set_jitter(0.1);
    S s(din, 1, 1);
    s.start();
    for (int i = 0; i < nx; ++i)
        s.add(i, i);
    acqui::GP_UCB<AP, S::G> g(s.gp, n);
    VectorXd v = zoo::point(4, din);
    double r = value(g(v, First(), false), "gp_ucb");
    if (n)
        mc::check(fabsl(r - (s.r.mu(v)[0] + kappa(n, din, 0.1) * sqrtl(s.r.var(v)))) < 1e-5L, "gp_ucb-value");
});
// the functor is reused after the model is refitted with as many samples, or with another aggregation
MC_SUITE("ei_refit", [] {
    typedef Sys<zoo::KExp, zoo::MConst, First> S;
    int how = mc::choose(4);
    S s(1, 1, 1);
    s.r.kern = zoo::KExp<zoo::P0>::make();
    s.r.mean = zoo::MConst<zoo::P0>::make();
    AP::acqui_ei::set_jitter(0);
    s.compute(0, 3, 1, 1);
    VectorXd v = zoo::point(4, 1);
    auto best = [&] {
        LD b = -INFINITY;
        for (auto& x : s.r.X)
            b = std::max(b, (how == 3 ? -1 : 1) * s.r.mu(x)[0]);
        return b;
    };
    int h = how;
    how = 0;
    double first = value(s.e(v, First(), false), "ei");
    LD old = best();
    mc::check(fabsl(first - ei(s.r.mu(v)[0], sqrtl(s.r.var(v)), old, 0)) < 1e-6L, "ei-value");
    how = h;
    if (how == 0)
        s.compute(3, 3, 1, 1);
    else if (how == 1) {
        s.setk(1);
        s.gp.recompute(false, true);
    }
    else if (how == 2) {
        s.setm(0);
        s.gp.recompute(true, true);
    }
    double c = how == 3 ? value(s.e(v, Comb(), false), "ei") : value(s.e(v, First(), false), "ei");
    LD mu = (how == 3 ? -1 : 1) * s.r.mu(v)[0], sg = sqrtl(s.r.var(v)), k = ei(mu, sg, best(), 0), stale = ei(mu, sg, old, 0);
    if (fabsl(c - k) < 1e-6L)
        return;
    mc::check(fabsl(c - stale) < 1e-6L, "ei-value", mc::fmt("%g instead of %Lg", c, k));
    mc::fail("ei-stale-best-after-refit", mc::fmt("%g instead of %Lg: the best value of the previous fit (%Lg instead of %Lg) is still used", c, k, old, best()));
});
MC_MAIN
