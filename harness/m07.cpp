// M07: mean functions return the documented prior with exact parameter gradients.
#include "mc.hpp"
#include "zoo.hpp"
#include <limbo/model/gp.hpp>
#include <limbo/model/gp/no_lf_opt.hpp>
using Eigen::VectorXd;
typedef zoo::P0 Pm;
struct FakeGP { // what a mean function may ask of a model
    VectorXd m;
    VectorXd mean_observation() const { return m; }
};
static VectorXd hp(int j, int n)
{
    static const double b[7] = {0.0, -0.7, 2.0, 1.0, -3.5, 0.25, 10.0};
    VectorXd v(n);
    for (int i = 0; i < n; ++i)
        v[i] = b[(j * 3 + i * (1 + j)) % 7];
    return v;
}
template <typename Mean, typename GP>
static void verify(const Mean& mf, const ref::Mean& r, const VectorXd& x, const GP& gp, const ref::Vec& dm)
{
    VectorXd v = mf(x, gp);
    ref::Vec e = r.value(dm);
    mc::check(v.size() == r.dim, "value-size");
    double s = 1 + (double)e.cwiseAbs().maxCoeff();
    for (int i = 0; i < r.dim; ++i)
        mc::check(zoo::close(v[i], e[i], 1e-9 * s), "value", mc::fmt("[%d] %.12g expected %.12Lg", i, v[i], e[i]));
    mc::check(mf.h_params_size() == r.size(), "h_params_size");
    VectorXd q = mf.h_params();
    mc::check(q.size() == (int)r.size(), "h_params");
    for (int i = 0; i < q.size(); ++i)
        mc::check(std::fabs(q[i] - r.hp[i]) < 1e-12, "h_params-roundtrip", mc::fmt("[%d] %.12g expected %.12g", i, q[i], r.hp[i]));
}
template <typename Mean, typename GP>
static void grad(const Mean& mf, const ref::Mean& r, const VectorXd& x, const GP& gp, const ref::Vec& dm)
{
    Eigen::MatrixXd g = mf.grad(x, gp);
    mc::check(g.rows() == r.dim && g.cols() == (int)r.size(), "gradient-size");
    for (int o = 0; o < r.dim; ++o) {
        ref::V e = ref::GP::diff(r.hp, [&](const ref::V& h) { return r.value(h, dm)[o]; });
        for (size_t k = 0; k < e.size(); ++k)
            mc::check(std::fabs(g(o, k) - e[k]) <= 1e-7 * (1 + std::fabs(e[k])), "gradient", mc::fmt("output %d parameter %zu: %.12g expected %.12g", o, k, g(o, k), e[k]));
    }
}
template <template <typename> class MT>
void body(int depth)
{
    int dout = 1 + mc::choose(4);
    mc::shard();
    typename MT<Pm>::type mf(dout);
    ref::Mean r = MT<Pm>::make();
    r.reset(dout);
    FakeGP gp;
    gp.m = VectorXd::Zero(dout);
    VectorXd x = zoo::point(1, 2);
    for (int s = 0; s < depth; ++s) {
        int o = mc::choose(10);
        mc::note(mc::fmt("op%d", o));
        mc::op();
        if (o < 5) {
            if (!r.size())
                throw mc::Skip();
            VectorXd p = hp(o, r.size());
            mf.set_h_params(p);
            r.hp = zoo::stdv(p);
        }
        else if (o < 8) // the data change
            gp.m = zoo::obs(o, dout) * (o == 7 ? -20 : 1);
        else if (o == 8) {
            typename MT<Pm>::type c(mf);
            if (r.size())
                mf.set_h_params(hp(5, r.size()));
            mf = c;
        }
        else
            x = zoo::point(2 + s, 1 + s % 3);
        if (mc::fresh()) {
            ref::Vec dm = gp.m.cast<ref::LD>();
            verify(mf, r, x, gp, dm);
            std::string st = zoo::str(gp.m);
            for (double v : r.hp)
                st += mc::fmt(" %g", v);
            mc::state(st);
        }
        if (r.size() && mc::fresh())
            grad(mf, r, x, gp, gp.m.cast<ref::LD>());
    }
}
// no gradient for parameterless means: those must not be asked
template <template <typename> class MT>
void body_nograd(int depth)
{
    int dout = 1 + mc::choose(4);
    typename MT<Pm>::type mf(dout);
    ref::Mean r = MT<Pm>::make();
    r.reset(dout);
    // with a real model behind it
    typedef limbo::model::GP<Pm, limbo::kernel::Exp<Pm>, typename MT<Pm>::type, limbo::model::gp::NoLFOpt<Pm>> G;
    G gp(2, dout);
    ref::Vec sum = ref::Vec::Zero(dout);
    for (int s = 0; s < depth; ++s) {
        int o = mc::choose(6);
        VectorXd y = zoo::obs(o, dout);
        gp.add_sample(zoo::point(o + s, 2), y);
        sum += y.cast<ref::LD>();
        mc::op();
        ref::Vec dm = sum / (ref::LD)(s + 1);
        verify(gp.mean_function(), r, zoo::point(0, 2), gp, dm);
        verify(mf, r, zoo::point(3, 2), gp, dm);
        mc::state(mc::fmt("%d %d %Lg", dout, s, dm[0]));
    }
}
#define S(NAME, M)                                                          \
    MC_SUITE(NAME, [] { body<zoo::M>(mc::tier(4, 6)); }, 4);                \
    MC_SUITE(NAME "_model", [] { body_nograd<zoo::M>(mc::tier(4, 6)); }, 4)
S("null", MNull);
S("const", MConst);
S("data", MData);
S("fard_null", MFArdN);
S("fard_const", MFArdC);
S("fard_data", MFArdD);
// an affine mean of an affine mean
template <typename P_>
struct MFF {
    typedef limbo::mean::FunctionARD<P_, limbo::mean::FunctionARD<P_, limbo::mean::Constant<P_>>> type;
};
MC_SUITE("fard_fard_const", [] {
    int dout = 1 + mc::choose(3), j = mc::choose(6), k = mc::choose(6);
    MFF<Pm>::type mf(dout);
    int n = dout * (dout + 1);
    mc::check((int)mf.h_params_size() == 2 * n + 1, "nested-size");
    VectorXd p(2 * n + 1);
    p << hp(j, n), hp(k, n + 1);
    mf.set_h_params(p);
    mc::op();
    mc::state(mc::fmt("%d %d %d", dout, j, k));
    mc::check(mf.h_params() == p, "nested-roundtrip");
    FakeGP gp;
    gp.m = VectorXd::Ones(dout);
    ref::Mean in = zoo::MFArdC<Pm>::make();
    in.reset(dout);
    auto val = [&](const ref::V& h) {
        ref::V ih(h.begin() + n, h.end());
        ref::Vec v = in.value(ih, ref::Vec::Ones(dout)), o(dout);
        for (int i = 0; i < dout; ++i) {
            o[i] = h[i * (dout + 1) + dout];
            for (int q = 0; q < dout; ++q)
                o[i] += (ref::LD)h[i * (dout + 1) + q] * v[q];
        }
        return o;
    };
    ref::Vec e = val(zoo::stdv(p));
    VectorXd v = mf(zoo::point(0, 2), gp);
    Eigen::MatrixXd g = mf.grad(zoo::point(0, 2), gp);
    for (int i = 0; i < dout; ++i) {
        mc::check(zoo::close(v[i], e[i], 1e-8 * (1 + std::fabs((double)e[i]))), "nested-value");
        ref::V ge = ref::GP::diff(zoo::stdv(p), [&](const ref::V& h) { return val(h)[i]; });
        for (int q = 0; q < p.size(); ++q)
            mc::check(std::fabs(g(i, q) - ge[q]) <= 1e-6 * (1 + std::fabs(ge[q])), "nested-gradient", mc::fmt("%d %d: %g expected %g", i, q, g(i, q), ge[q]));
    }
});
MC_MAIN
