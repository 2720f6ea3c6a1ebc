// M03: predicted variance is finite, within [noise, prior+noise], never grows with data, order-free;
// adversarial geometries: repeated, nearly coincident, far away points.
#include "mc.hpp"
#include "zoo.hpp"
#include <limbo/model/gp.hpp>
#include <limbo/model/gp/no_lf_opt.hpp>
using Eigen::VectorXd;

template <int NZ>
struct PZ : public zoo::P<20, false, 0> {
    struct kernel {
        BO_PARAM(double, noise, NZ == 0 ? 0.01 : NZ == 1 ? 1e-5 : NZ == 2 ? 0.0 : 0.5);
        BO_PARAM(bool, optimize_noise, false);
    };
};
static double noise_of(int nz) { return nz == 0 ? 0.01 : nz == 1 ? 1e-5 : nz == 2 ? 0.0 : 0.5; }

static std::vector<VectorXd> alphabet(int d)
{
    static const double b[6] = {0.0, 1e-9, 0.5, 0.5 + 1e-4, 1.0, 50.0};
    std::vector<VectorXd> A;
    for (int i = 0; i < 6; ++i) {
        VectorXd v = VectorXd::Constant(d, b[i]);
        if (d > 1)
            v[1] = b[(i * 2) % 6] + (i == 5 ? -50 : 0);
        A.push_back(v);
    }
    return A;
}
template <int NZ, template <typename> class KT, template <typename> class MT>
void body(int d, int depth)
{
    typedef PZ<NZ> Pm;
    typedef limbo::model::GP<Pm, typename KT<Pm>::type, typename MT<Pm>::type, limbo::model::gp::NoLFOpt<Pm>> G;
    auto A = alphabet(d);
    std::vector<VectorXd> Q = A;
    Q.push_back(VectorXd::Constant(d, 0.25));
    Q.push_back(VectorXd::Constant(d, -3.0));
    std::vector<int> pre = {mc::choose(6), mc::choose(6)};
    mc::shard();
    G gp(d, 1);
    ref::GP r;
    r.kern = KT<Pm>::make();
    r.kern.noise0 = noise_of(NZ);
    r.mean = MT<Pm>::make();
    r.dims(d, 1);
    double nz = noise_of(NZ);
    std::vector<double> prev(Q.size());
    for (size_t i = 0; i < Q.size(); ++i) {
        prev[i] = gp.sigma(Q[i]);
        mc::check(zoo::close(prev[i], r.var(Q[i]), 1e-9), "prior");
    }
    double tol = NZ == 2 ? 2e-5 : 1e-7, mtol = NZ == 2 ? 1e-3 : NZ == 1 ? 1e-5 : 1e-7;
    for (int s = 0; s < depth; ++s) {
        int a = s < 2 ? pre[s] : mc::choose(6);
        static const double ys[6] = {1.0, 1.0 + 1e-3, -2.0, -2.0, 5.0, 0.0};
        VectorXd x = A[a], y = limbo::tools::make_vector(ys[a] + (NZ == 2 ? 0 : 0.25 * (s % 2)));
        gp.add_sample(x, y);
        mc::op();
        r.X.push_back(x);
        r.Y.push_back(y);
        r.dirty = true;
        mc::note(std::to_string(a));
        if (s >= 2 && !mc::fresh()) {
            for (size_t i = 0; i < Q.size(); ++i)
                prev[i] = gp.sigma(Q[i]);
            continue;
        }
        std::string st;
        for (auto& v : r.X)
            st += zoo::str(v);
        mc::state(st);
        for (size_t i = 0; i < Q.size(); ++i) {
            double sg = gp.sigma(Q[i]);
            VectorXd mu = gp.mu(Q[i]);
            std::string at = mc::fmt("at %s after %d additions: %.17g", zoo::str(Q[i]).c_str(), s + 1, sg);
            mc::check(std::isfinite(sg), "variance-not-finite", at);
            mc::check(std::isfinite(mu[0]), "mean-not-finite", at);
            mc::check(sg >= nz * (1 - 1e-12), "variance-below-noise", at);
            mc::check(sg <= (double)(r.kern.value(Q[i], Q[i])) + nz + 1e-9, "variance-above-prior", at);
            mc::check(sg <= prev[i] + tol, "variance-grew", at + mc::fmt(" before %.17g", prev[i]));
            mc::check(zoo::close(sg, r.var(Q[i]), tol), "variance-value", at + mc::fmt(" expected %.17Lg", r.var(Q[i])));
            ref::Vec m = r.mu(Q[i]);
            mc::check(zoo::close(mu[0], m[0], mtol * 10), "mean-value", at + mc::fmt(" mu %.12g expected %.12Lg", mu[0], m[0]));
            prev[i] = sg;
        }
        // the same data in one batch, in another order
        G b(d, 1);
        std::vector<VectorXd> X(r.X.rbegin(), r.X.rend()), Y(r.Y.rbegin(), r.Y.rend());
        b.compute(X, Y);
        for (size_t i = 0; i < Q.size(); ++i) {
            mc::check(std::fabs(b.sigma(Q[i]) - prev[i]) <= 2 * tol, "batch-reversed-variance", mc::fmt("%.12g vs %.12g", b.sigma(Q[i]), prev[i]));
            mc::check(std::fabs(b.mu(Q[i])[0] - gp.mu(Q[i])[0]) <= 20 * mtol, "batch-reversed-mean");
        }
    }
}
#ifndef PART
#define PART 0
#endif
#define S(NZ, K, M, NAME)                                                                        \
    MC_SUITE(NAME "_1d", [] { body<NZ, zoo::K, zoo::M>(1, mc::tier(6, 8)); }, 16);               \
    MC_SUITE(NAME "_2d", [] { body<NZ, zoo::K, zoo::M>(2, mc::tier(5, 7)); }, 16);               \
    MC_SUITE(NAME "_3d", [] { body<NZ, zoo::K, zoo::M>(3, mc::tier(4, 6)); }, 8)
#if PART == 0
S(0, KExp, MData, "exp");
S(1, KExp, MConst, "exp_lownoise");
S(2, KExp, MNull, "exp_nonoise");
#elif PART == 1
S(0, KM52, MData, "m52");
S(1, KM52, MData, "m52_lownoise");
S(3, KM32, MConst, "m32_highnoise");
#else
S(2, KM32, MNull, "m32_nonoise");
S(0, KARD, MConst, "ard");
S(2, KARD, MNull, "ard_nonoise");
#endif
MC_MAIN
