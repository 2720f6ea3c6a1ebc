// M08: save/load round trips inside arbitrary histories of the original, the target and the reloaded model.
#include "gpsys.hpp"
#include "multisys.hpp"
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <cfloat>
#include <unordered_map>
using limbo::serialize::BinaryArchive;
using limbo::serialize::TextArchive;

template <typename M>
void save_as(const M& m, int fmt, int api, const std::string& dir)
{
    if (api == 0) {
        if (fmt)
            m.template save<BinaryArchive>(dir);
        else
            m.template save<TextArchive>(dir);
    }
    else {
        if (fmt)
            m.save(BinaryArchive(dir));
        else
            m.save(TextArchive(dir));
    }
}
template <typename M>
void load_as(M& m, int fmt, int api, bool rec, const std::string& dir)
{
    if (api == 0) {
        if (fmt)
            m.template load<BinaryArchive>(dir, rec);
        else
            m.template load<TextArchive>(dir, rec);
    }
    else {
        if (fmt)
            m.load(BinaryArchive(dir), rec);
        else
            m.load(TextArchive(dir), rec);
    }
}
struct Expect {
    double ll, loo;
    ref::V gk, gl, gm;
};
inline void cmp(const Eigen::VectorXd& g, const ref::V& e, const char* key)
{
    mc::check(g.size() == (int)e.size(), std::string(key) + "-size");
    double s = 1;
    for (double x : e)
        s = std::max(s, std::fabs(x));
    for (size_t i = 0; i < e.size(); ++i)
        mc::check(std::fabs(g[i] - e[i]) <= 2e-5 * s, key, mc::fmt("[%zu] %.12g expected %.12g", i, g[i], e[i]));
}
template <typename Pm, template <typename> class KT, template <typename> class MT>
struct Sys : public GPSys<Pm, KT, MT> {
    typedef GPSys<Pm, KT, MT> B;
    typedef typename B::G G;
    using B::B;
    using B::r;
    using B::gp;
    using B::has;
    bool quiet = true; // only verify once something has been loaded
    const Expect& expect()
    {
        static std::unordered_map<uint64_t, Expect> memo;
        uint64_t h = this->hash();
        auto it = memo.find(h);
        if (it != memo.end())
            return it->second;
        Expect e;
        e.ll = (double)r.loglik(r.kern.hp, r.mean.hp);
        e.loo = (double)r.loo(r.kern.hp, r.mean.hp);
        e.gk = r.grad_loglik_kernel();
        e.gl = r.grad_loo_kernel();
        e.gm = r.grad_loglik_mean();
        return memo[h] = e;
    }
    void roundtrip(int fmt, int api, bool rec, int target, bool twice)
    {
        if (twice) { // an older, larger model is saved to the same place first
            G o;
            for (int i = 0; i < 6; ++i)
                o.add_sample(zoo::point(i + 1, r.din), zoo::obs(i + 3, r.dout));
            save_as(o, fmt, api, "m");
        }
        save_as(gp, fmt, api, "m");
        if (target == 0)
            gp = G();
        else if (target == 1)
            gp = G(r.din, r.dout);
        else { // an already used model, with other data and (for 3) other dimensions, every cache filled
            int e = target == 3;
            gp = G();
            for (int i = 0; i < 4; ++i)
                gp.add_sample(zoo::point(i + 2, r.din + e), zoo::obs(i + 5, r.dout + e));
            Eigen::VectorXd p = gp.kernel_function().h_params();
            gp.kernel_function().set_h_params(p * 0.5);
            gp.recompute();
            gp.compute_inv_kernel();
            gp.compute_log_lik();
            gp.compute_log_loo_cv();
        }
        load_as(gp, fmt, api, rec, "m");
        quiet = false;
    }
    void verify()
    {
        if (quiet || !has())
            return;
        mc::state(this->hash());
        const G& g = gp;
        mc::check(g.dim_in() == r.din && g.dim_out() == r.dout, "dims");
        mc::check(g.samples() == r.X && g.nb_samples() == (int)r.X.size(), "samples");
        mc::check(g.observations().size() == r.Y.size(), "observations");
        double scale = 1;
        for (size_t i = 0; i < r.Y.size(); ++i) {
            mc::check(g.observations()[i] == r.Y[i] && g.observations_matrix().row(i).transpose() == r.Y[i], "observations");
            scale = std::max(scale, r.Y[i].cwiseAbs().maxCoeff());
        }
        for (size_t i = 0; i < r.kern.hp.size(); ++i)
            mc::check(std::fabs(g.kernel_function().h_params()[i] - r.kern.hp[i]) < 1e-12, "kernel-hp");
        for (size_t i = 0; i < r.mean.hp.size(); ++i)
            mc::check(std::fabs(g.mean_function().h_params()[i] - r.mean.hp[i]) < 1e-12, "mean-hp");
        r.prepare();
        Eigen::VectorXd mo = g.mean_observation();
        for (int i = 0; i < r.dout; ++i)
            mc::check(zoo::close(mo[i], r.dm[i], 1e-10 * scale), "mean_observation");
        for (auto& v : std::vector<VectorXd>{zoo::point(5, r.din), VectorXd::Constant(r.din, 0.5), VectorXd::Constant(r.din, 40.), r.X.front(), r.X.back()}) {
            ref::Vec m = r.mu(v);
            VectorXd gm = g.mu(v);
            for (int i = 0; i < r.dout; ++i)
                mc::check(zoo::close(gm[i], m[i], 1e-5 * scale), "mu", mc::fmt("at %s: mu[%d]=%.12g expected %.12Lg", zoo::str(v).c_str(), i, gm[i], m[i]));
            mc::check(zoo::close(g.sigma(v), r.var(v), 1e-5), "sigma");
        }
        const Expect& e = expect();
        G c(gp);
        double v = c.compute_log_lik();
        mc::check(std::fabs(v - e.ll) <= 1e-5 * (1 + std::fabs(e.ll)), "loglik", mc::fmt("%.12g expected %.12g", v, e.ll));
        v = c.compute_log_loo_cv();
        mc::check(std::fabs(v - e.loo) <= 1e-5 * (1 + std::fabs(e.loo)), "loo", mc::fmt("%.12g expected %.12g", v, e.loo));
        cmp(c.compute_kernel_grad_log_lik(), e.gk, "kernel-grad");
        cmp(c.compute_kernel_grad_log_loo_cv(), e.gl, "loo-grad");
        if (r.mean.size())
            cmp(c.compute_mean_grad_log_lik(), e.gm, "mean-grad");
        mc::check(g.mean_vector().rows() == (int)r.X.size() && g.obs_mean().rows() == (int)r.X.size(), "centred-observations");
        for (size_t i = 0; i < r.Y.size(); ++i)
            mc::check((g.mean_vector().row(i) + g.obs_mean().row(i) - r.Y[i].transpose()).cwiseAbs().maxCoeff() <= 1e-9 * scale, "centred-observations");
    }
};
template <typename Pm, template <typename> class KT, template <typename> class MT>
struct MSys : public MultiSys<Pm, KT, MT> {
    typedef MultiSys<Pm, KT, MT> B;
    typedef typename B::G G;
    using B::B;
    using B::gp;
    using B::has;
    bool quiet = true;
    void roundtrip(int fmt, int api, bool rec, int target, bool twice)
    {
        int a = this->rdin, b = this->rdout;
        if (twice) {
            G o;
            for (int i = 0; i < 6; ++i)
                o.add_sample(zoo::point(i + 1, a), zoo::obs(i + 3, b + 1));
            save_as(o, fmt, api, "m");
        }
        save_as(gp, fmt, api, "m");
        if (target == 0)
            gp = G();
        else if (target == 1)
            gp = G(a, b);
        else {
            int e = target == 3;
            gp = G();
            for (int i = 0; i < 4; ++i)
                gp.add_sample(zoo::point(i + 2, a + e), zoo::obs(i + 5, b + e));
            for (auto& s : gp.gp_models()) {
                s.compute_log_lik();
                s.compute_kernel_grad_log_lik();
            }
        }
        load_as(gp, fmt, api, rec, "m");
        quiet = false;
    }
    void verify()
    {
        if (!quiet && has())
            B::verify();
    }
};
template <typename S>
void histories(const D& dims, int pre, int post)
{
    auto d = mc::pick(dims);
    S s(d.first, d.second, 0);
    std::vector<int> w;
    for (int i = 0; i < pre; ++i)
        w.push_back(mc::choose(s.nops()));
    mc::shard();
    s.start();
    for (int o : w) {
        if (!s.enabled(o))
            throw mc::Skip();
        s.apply(o);
        mc::op();
    }
    if (!s.has())
        throw mc::Skip();
    int fmt = mc::choose(2), rec = mc::choose(2), target = mc::choose(4), api = (fmt + rec + target) & 1, twice = (rec + target / 2) & 1;
    mc::note(mc::fmt("%s load(recompute=%d) into target %d%s", fmt ? "binary" : "text", rec, target, twice ? ", after an older save" : ""));
    s.roundtrip(fmt, api, rec, target, twice);
    mc::op(2);
    if (mc::fresh())
        s.verify();
    for (int i = 0; i < post; ++i) {
        int o = mc::choose(s.nops() + 1);
        if (o == s.nops()) { // second generation
            if (!s.has())
                throw mc::Skip();
            s.roundtrip(1 - fmt, 0, !rec, 0, false);
        }
        else {
            if (!s.enabled(o))
                throw mc::Skip();
            s.apply(o);
        }
        mc::op();
        if (mc::fresh())
            s.verify();
    }
}
#define INST(NAME, PM, K, M, DIMS, PRE, POST)                                                               \
    typedef Sys<zoo::PM, zoo::K, zoo::M> S_##NAME;                                                          \
    MC_SUITE(#NAME, [] { histories<S_##NAME>(DIMS, mc::tier(PRE, 2), mc::tier(POST, 2)); }, 24)
#define MINST(NAME, PM, K, M, DIMS, PRE, POST)                                                              \
    typedef MSys<zoo::PM, zoo::K, zoo::M> S_##NAME;                                                         \
    MC_SUITE(#NAME, [] { histories<S_##NAME>(DIMS, mc::tier(PRE, 2), mc::tier(POST, 2)); }, 24)

#if PART == 0
INST(exp_data, P0, KExp, MData, (D{{1, 2}}), 2, 1);
INST(ard_const, PN, KARD, MConst, (D{{2, 2}}), 1, 2);
#elif PART == 1
INST(ardk1_farddata, PK1, KARD, MFArdD, (D{{2, 2}}), 1, 2);
INST(m32_null, P0, KM32, MNull, (D{{3, 1}}), 1, 2);
#elif PART == 2
MINST(multi_exp_data, P0, KExp, MData, (D{{1, 2}}), 2, 1);
MINST(multi_ardn_fardconst, PN, KARD, MFArdC, (D{{2, 1}, {2, 2}}), 1, 2);
#elif PART == 3
// extreme values must come back exactly: data, parameters, stored factorisation
static const double EXT[] = {0.1, 1. / 3, -2. / 3, 1e-300, -1e-300, 5e-324, -4.9e-320, DBL_MIN, 1e300, -1.7976931348623157e308, 123456789.123456789, -0.0, 1 + DBL_EPSILON, 1e22, 9007199254740993., 3.141592653589793, 0};
template <typename A>
void archive_values(const char* name)
{
    const int n = sizeof(EXT) / sizeof(*EXT);
    int rows = 1 + mc::choose(3), cols = 1 + mc::choose(3), a = mc::choose(n), b = mc::choose(n), kind = mc::choose(3);
    mc::note(mc::fmt("%s %dx%d kind %d values %.17g %.17g", name, rows, cols, kind, EXT[a], EXT[b]));
    A ar("x/y"); // nested directory
    auto v = [&](int i) { return (i & 1) ? EXT[b] : EXT[a]; };
    auto same = [&](double x, double y) { return x == y && std::signbit(x) == std::signbit(y); };
    mc::op(2);
    if (kind == 0) {
        Eigen::MatrixXd m(rows, cols), l = Eigen::MatrixXd::Ones(2, 5);
        for (int i = 0; i < rows * cols; ++i)
            m(i / cols, i % cols) = v(i);
        ar.save(m, "m");
        ar.load(l, "m");
        mc::check(l.rows() == rows && l.cols() == cols, "archive-shape");
        for (int i = 0; i < rows * cols; ++i)
            mc::check(same(l(i / cols, i % cols), v(i)), "archive-value", mc::fmt("%s: %.17g read back as %.17g", name, v(i), l(i / cols, i % cols)));
    }
    else if (kind == 1) {
        Eigen::VectorXd m(rows), l = Eigen::VectorXd::Ones(7);
        for (int i = 0; i < rows; ++i)
            m(i) = v(i);
        ar.save(m, "v");
        ar.load(l, "v");
        mc::check(l.size() == rows, "archive-shape");
        for (int i = 0; i < rows; ++i)
            mc::check(same(l(i), v(i)), "archive-value", mc::fmt("%s: %.17g read back as %.17g", name, v(i), l(i)));
    }
    else {
        std::vector<Eigen::VectorXd> m(rows, Eigen::VectorXd(cols)), l(5, Eigen::VectorXd::Ones(4));
        for (int i = 0; i < rows * cols; ++i)
            m[i / cols](i % cols) = v(i);
        ar.save(m, "l");
        ar.load(l, "l");
        mc::check((int)l.size() == rows && l[0].size() == cols, "archive-shape");
        for (int i = 0; i < rows * cols; ++i)
            mc::check(same(l[i / cols](i % cols), v(i)), "archive-value", mc::fmt("%s: %.17g read back as %.17g", name, v(i), l[i / cols](i % cols)));
    }
    mc::state(mc::fmt("%s/%d/%d/%d/%d/%d", name, rows, cols, a, b, kind));
}
MC_SUITE("text_values", [] { archive_values<TextArchive>("text"); });
MC_SUITE("binary_values", [] { archive_values<BinaryArchive>("binary"); });
// whole models on data that needs every digit
MC_SUITE("exact_models", [] {
    typedef limbo::model::GP<zoo::PN, limbo::kernel::SquaredExpARD<zoo::PN>, limbo::mean::Constant<zoo::PN>> G;
    int fmt = mc::choose(2), rec = mc::choose(2), n = 1 + mc::choose(4), d = 1 + mc::choose(3), o = 1 + mc::choose(2), sc = mc::choose(5);
    static const double SC[5] = {1, 1e-7, 1e6, -3.3333333333e3, 1e-200};
    G g, h;
    std::vector<VectorXd> X, Y;
    for (int i = 0; i < n; ++i) {
        X.push_back((zoo::point(i, d) / 3.0).eval());
        Y.push_back((zoo::obs(i, o) / 7.0 * SC[sc]).eval());
    }
    g.compute(X, Y);
    g.kernel_function().set_h_params((zoo::params(1, g.kernel_function().h_params_size()) / 3.0).eval());
    g.mean_function().set_h_params((zoo::params(2, o) / 3.0).eval());
    g.recompute();
    save_as(g, fmt, 0, "e");
    load_as(h, fmt, 1, rec, "e");
    mc::op(2);
    mc::state(mc::fmt("%d%d%d%d%d%d", fmt, rec, n, d, o, sc));
    mc::check(h.samples() == X, "exact-samples", "samples changed by the round trip");
    mc::check(h.observations() == Y, "exact-observations", "observations changed by the round trip");
    mc::check(h.kernel_function().h_params().isApprox(g.kernel_function().h_params(), 1e-15), "exact-kernel-params");
    mc::check(h.mean_function().h_params() == g.mean_function().h_params(), "exact-mean-params");
    mc::check(h.matrixL().isApprox(g.matrixL(), 1e-13) && h.alpha().isApprox(g.alpha(), 1e-12), "exact-factor");
});
// sparsified models: what is saved is what was kept; pruning goes on after loading
struct PS : public zoo::P<20, false, 0> {
    struct model_sparse_gp {
        BO_PARAM(int, max_points, 3);
    };
};
MC_SUITE("sparse_models", [] {
    typedef limbo::model::SparsifiedGP<PS, limbo::kernel::Exp<PS>, limbo::mean::Data<PS>> G;
    int fmt = mc::choose(2), rec = mc::choose(2), n = 1 + mc::choose(6), more = mc::choose(4), d = 1 + mc::choose(2);
    G g, h;
    for (int i = 0; i < n; ++i)
        g.add_sample(zoo::point(i, d), zoo::obs(i, 1));
    save_as(g, fmt, 0, "s");
    h.add_sample(zoo::point(7, d + 1), zoo::obs(2, 2));
    load_as(h, fmt, 0, rec, "s");
    mc::op(2);
    for (int i = 0;; ++i) {
        mc::check(g.samples() == h.samples() && g.observations() == h.observations(), "sparse-data", mc::fmt("after %d more additions", i));
        for (int k = 0; k < 4; ++k) {
            VectorXd v = zoo::point(3 * k, d);
            mc::check((g.mu(v) - h.mu(v)).norm() < 1e-8 && std::fabs(g.sigma(v) - h.sigma(v)) < 1e-8, "sparse-prediction");
        }
        if (i == more)
            break;
        g.add_sample(zoo::point(n + i, d), zoo::obs(n + i, 1));
        h.add_sample(zoo::point(n + i, d), zoo::obs(n + i, 1));
        mc::op(2);
    }
    mc::state(mc::fmt("%d%d%d%d%d", fmt, rec, n, more, d));
});
#endif
MC_MAIN
