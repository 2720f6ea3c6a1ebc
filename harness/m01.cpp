// M01: GP predictions equal the exact posterior after any history of updates.
#include "gpsys.hpp"

template <typename Pm, template <typename> class KT, template <typename> class MT>
struct Sys : public GPSys<Pm, KT, MT> {
    typedef GPSys<Pm, KT, MT> B;
    typedef typename B::G G;
    using B::B;
    using B::r;
    using B::gp;
    using B::has;
    void verify()
    {
        if (r.din < 0)
            return;
        mc::state(this->hash());
        const G& g = gp;
        mc::check(g.dim_in() == r.din && g.dim_out() == r.dout, "dims");
        mc::check(g.nb_samples() == (int)r.X.size(), "nb_samples");
        mc::check(g.samples() == r.X, "samples");
        mc::check(zoo::stdv(g.kernel_function().h_params()).size() == r.kern.hp.size(), "kernel-hp-size");
        for (size_t i = 0; i < r.kern.hp.size(); ++i)
            mc::check(std::fabs(g.kernel_function().h_params()[i] - r.kern.hp[i]) < 1e-12, "kernel-hp");
        mc::check(g.mean_function().h_params_size() == r.mean.hp.size(), "mean-hp-size");
        for (size_t i = 0; i < r.mean.hp.size(); ++i)
            mc::check(std::fabs(g.mean_function().h_params()[i] - r.mean.hp[i]) < 1e-12, "mean-hp");
        r.prepare();
        double scale = 1;
        if (has()) {
            auto obs = g.observations();
            mc::check(obs.size() == r.Y.size(), "observations");
            mc::check(g.observations_matrix().rows() == (int)r.Y.size() && g.observations_matrix().cols() == r.dout, "observations");
            double mx = r.Y[0](0);
            for (size_t i = 0; i < obs.size(); ++i) {
                mc::check(obs[i] == r.Y[i], "observations");
                mc::check(g.observations_matrix().row(i).transpose() == r.Y[i], "observations_matrix");
                scale = std::max(scale, r.Y[i].cwiseAbs().maxCoeff());
                mx = std::max(mx, r.Y[i].maxCoeff());
            }
            if (r.dout == 1) {
                mc::check(g.max_observation().size() == 1 && g.max_observation()(0) == mx, "max_observation");
            }
        }
        VectorXd mo = g.mean_observation();
        mc::check(mo.size() == r.dout, "mean_observation");
        for (int i = 0; i < r.dout; ++i)
            mc::check(zoo::close(mo[i], r.dm[i], 1e-10 * scale), "mean_observation", mc::fmt("%g vs %Lg", mo[i], r.dm[i]));
        std::vector<VectorXd> q = {zoo::point(5, r.din), zoo::point(8, r.din) * 0.7, VectorXd::Constant(r.din, 0.5), VectorXd::Constant(r.din, 40.)};
        if (has()) {
            q.push_back(r.X.front());
            q.push_back(r.X.back());
        }
        for (auto& v : q) {
            ref::Vec m = r.mu(v);
            ref::LD s = r.var(v);
            VectorXd gm = g.mu(v);
            double gs = g.sigma(v);
            VectorXd qm;
            double qs;
            std::tie(qm, qs) = g.query(v);
            mc::check(gm.size() == r.dout && qm.size() == r.dout, "mu-size");
            for (int i = 0; i < r.dout; ++i) {
                mc::check(zoo::close(gm[i], m[i], 1e-5 * scale), "mu", mc::fmt("at %s: mu[%d]=%.12g expected %.12Lg", zoo::str(v).c_str(), i, gm[i], m[i]));
                mc::check(std::fabs(gm[i] - qm[i]) <= 1e-9 * scale, "query-mu");
            }
            mc::check(zoo::close(gs, s, 1e-5), "sigma", mc::fmt("at %s: sigma=%.12g expected %.12Lg", zoo::str(v).c_str(), gs, s));
            mc::check(std::fabs(gs - qs) <= 1e-10, "query-sigma");
        }
    }
};
// long chains of additions with a refresh after every k-th
template <typename S>
void run_long()
{
    int din = 1 + mc::choose(3), dout = 1 + mc::choose(2), every = 1 + mc::choose(8), what = mc::choose(4), start = mc::choose(2);
    mc::shard();
    S s(din, dout, start);
    s.start();
    for (int i = 0; i < mc::tier(34, 70); ++i) {
        VectorXd x = zoo::point(i, din) + VectorXd::Constant(din, 0.37 * (i / 10)), y = zoo::obs(i, dout);
        s.gp.add_sample(x, y);
        if (!s.has())
            s.r.dims(din, dout);
        s.r.X.push_back(x);
        s.r.Y.push_back(y);
        s.r.dirty = true;
        mc::op();
        if (i % every == every - 1) {
            int o = what == 0 ? 5 + (i / every) % 2 : what == 1 ? 7 : what == 2 ? 16 : 12;
            if (s.enabled(o))
                s.apply(o);
        }
        s.verify();
    }
}
#define INST(NAME, PM, K, M, DIMS, DQ, DT)                                                     \
    typedef Sys<zoo::PM, zoo::K, zoo::M> S_##NAME;                                             \
    MC_SUITE(#NAME, [] { run<S_##NAME>(DIMS, mc::tier(DQ, DT), 2); }, 24);                     \
    MC_SUITE(#NAME "_lasso", [] { run_lasso<S_##NAME>(DIMS, 1, 2, mc::tier(8, 14)); }, 16);    \
    MC_SUITE(#NAME "_long", [] { run_long<S_##NAME>(); }, 8)
#if PART == 0
INST(exp_data, P0, KExp, MData, (D{{1, 1}, {2, 2}}), 4, 5);
INST(m52_farddata, P0, KM52, MFArdD, (D{{2, 2}}), 3, 4);
#elif PART == 1
INST(ard_const, PN, KARD, MConst, (D{{1, 1}, {3, 2}}), 4, 4);
INST(m32_null, P0, KM32, MNull, (D{{1, 1}, {4, 3}}), 3, 4);
#elif PART == 2
INST(ardk1_fardconst, PK1, KARD, MFArdC, (D{{2, 1}, {3, 3}}), 3, 4);
INST(m52n_data, PN, KM52, MData, (D{{1, 2}, {3, 1}}), 3, 4);
#elif PART == 3
INST(ardk2n_fardnull, PK2N, KARD, MFArdN, (D{{3, 2}}), 3, 4);
INST(expn_const, PN, KExp, MConst, (D{{2, 1}}), 3, 4);
INST(m32n_data, PN, KM32, MData, (D{{2, 1}}), 3, 4);
#endif
MC_MAIN
