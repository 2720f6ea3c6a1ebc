// M09: hyper-parameter optimisation: the objective presented to the optimiser, what is changed, what is left behind.
#include "gpsys.hpp"
#include "multisys.hpp"
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#include <limbo/opt/rprop.hpp>
#include <unordered_map>

enum Kind { KLF, KLOO, MLF, KMLF };
static const char* KN[] = {"kernel-likelihood", "kernel-loo", "mean-likelihood", "kernel+mean-likelihood"};
struct Score {
    double v;
    ref::V g;
};
// what the optimiser should be told, for the model currently being optimised
struct Oracle {
    Kind kind;
    std::function<ref::GP*()> gp; // the model being optimised
    uint64_t h;
    int din, dout;
    void split(const ref::V& p, ref::V& kh, ref::V& mh)
    {
        ref::GP* r = gp();
        kh = r->kern.hp;
        mh = r->mean.hp;
        if (kind == KLF || kind == KLOO)
            kh = p;
        else if (kind == MLF)
            mh = p;
        else {
            kh.assign(p.begin(), p.begin() + r->kern.size());
            mh.assign(p.begin() + r->kern.size(), p.end());
        }
    }
    ref::V start()
    {
        ref::GP* r = gp();
        ref::V p;
        if (kind != MLF)
            p = r->kern.hp;
        if (kind == MLF || kind == KMLF)
            p.insert(p.end(), r->mean.hp.begin(), r->mean.hp.end());
        return p;
    }
    double value(const ref::V& p)
    {
        ref::V kh, mh;
        split(p, kh, mh);
        return (double)(kind == KLOO ? gp()->loo(kh, mh) : gp()->loglik(kh, mh));
    }
    const Score& score(const ref::V& p)
    {
        static std::unordered_map<uint64_t, Score> memo;
        uint64_t k = mc::hash_bytes(p.data(), 8 * p.size(), h * 4 + kind);
        auto it = memo.find(k);
        if (it != memo.end())
            return it->second;
        Score s;
        s.v = value(p);
        s.g = ref::GP::diff(p, [&](const ref::V& q) {
            ref::V kh, mh;
            split(q, kh, mh);
            return kind == KLOO ? gp()->loo(kh, mh) : gp()->loglik(kh, mh);
        });
        return memo[k] = s;
    }
};
static Oracle* g_oracle = nullptr;
static std::vector<Oracle>* g_oracles = nullptr; // several models, optimised one after the other
static size_t g_next = 0;
static int g_len = 2, g_calls = 0, g_quick_script = -1;
static std::vector<ref::V> g_final;

// stands in for the inner optimiser: asks for an explored sequence of scores, then answers with an explored point
template <typename Pm>
struct Scripted {
    template <typename F>
    Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded) const
    {
        if (g_oracles) {
            mc::check(g_next < g_oracles->size(), "optimised-too-often");
            g_oracle = &(*g_oracles)[g_next++];
        }
        Oracle& o = *g_oracle;
        g_calls++;
        ref::V st = o.start();
        mc::check(init.size() == (int)st.size(), "starting-point-size");
        for (size_t i = 0; i < st.size(); ++i)
            mc::check(std::fabs(init[i] - st[i]) < 1e-12, "starting-point", mc::fmt("[%zu] %.12g, current parameter %.12g", i, init[i], st[i]));
        mc::check(!bounded, "bounded-hyper-parameters");
        auto param = [&](int j) {
            Eigen::VectorXd p(st.size());
            if (j == 0)
                return init;
            ref::GP* r = o.gp();
            int nk = o.kind == MLF ? 0 : (int)r->kern.size(), nm = (int)st.size() - nk;
            if (nk)
                p.head(nk) = zoo::kparams(j, r->kern);
            if (nm)
                p.tail(nm) = zoo::params(j + 1, nm, 1.0);
            return p;
        };
        Eigen::VectorXd last = init;
        for (int i = 0; i < g_len; ++i) {
            int c = g_quick_script >= 0 ? (g_quick_script + i * 3) % 6 : mc::choose(6), j = c / 2, grad = c % 2;
            last = param(j);
            auto r = f(last, grad);
            mc::op();
            const Score& e = o.score(zoo::stdv(last));
            double v = limbo::opt::fun(r);
            mc::check(std::fabs(v - e.v) <= 1e-5 * (1 + std::fabs(e.v)), "objective", mc::fmt("%s query %d at %s: %.12g, a model fitted from scratch has %.12g", KN[o.kind], i, zoo::str(last).c_str(), v, e.v));
            if (grad) {
                const Eigen::VectorXd& g = limbo::opt::grad(r);
                mc::check(g.size() == (int)e.g.size(), "objective-gradient-size");
                double s = 1;
                for (double x : e.g)
                    s = std::max(s, std::fabs(x));
                for (size_t k = 0; k < e.g.size(); ++k)
                    mc::check(std::fabs(g[k] - e.g[k]) <= 2e-5 * s, "objective-gradient", mc::fmt("%s at %s: [%zu] %.12g expected %.12g", KN[o.kind], zoo::str(last).c_str(), k, g[k], e.g[k]));
            }
            else
                mc::check(!std::get<1>(r).is_initialized() || limbo::opt::grad(r).size() == (int)e.g.size(), "objective-gradient-size");
        }
        int a = g_quick_script >= 0 ? 2 : mc::choose(3);
        Eigen::VectorXd ans = a == 0 ? last : a == 1 ? init : param(3);
        g_final.push_back(zoo::stdv(ans));
        return ans;
    }
};
template <typename S>
void compare(S& s, ref::GP& r, double tolmu = 1e-5)
{
    typedef typename S::G G;
    const G& g = s.gp;
    r.dirty = true;
    r.prepare();
    mc::check(g.samples() == r.X, "data-changed");
    mc::check(g.observations() == r.Y, "data-changed");
    for (size_t i = 0; i < r.kern.hp.size(); ++i)
        mc::check(std::fabs(g.kernel_function().h_params()[i] - r.kern.hp[i]) < 1e-12, "kernel-parameters", mc::fmt("[%zu] %.12g expected %.12g", i, g.kernel_function().h_params()[i], r.kern.hp[i]));
    for (size_t i = 0; i < r.mean.hp.size(); ++i)
        mc::check(std::fabs(g.mean_function().h_params()[i] - r.mean.hp[i]) < 1e-12, "mean-parameters");
    double scale = 1;
    for (auto& y : r.Y)
        scale = std::max(scale, y.cwiseAbs().maxCoeff());
    for (auto& v : std::vector<VectorXd>{zoo::point(5, r.din), VectorXd::Constant(r.din, 0.5), r.X.front(), r.X.back()}) {
        ref::Vec m = r.mu(v);
        VectorXd gm = g.mu(v);
        for (int i = 0; i < r.dout; ++i)
            mc::check(zoo::close(gm[i], m[i], tolmu * scale), "mu", mc::fmt("at %s: mu[%d]=%.12g expected %.12Lg", zoo::str(v).c_str(), i, gm[i], m[i]));
        mc::check(zoo::close(g.sigma(v), r.var(v), 1e-5), "sigma");
    }
    G c(s.gp);
    double e = (double)r.loglik(r.kern.hp, r.mean.hp), v = c.compute_log_lik();
    mc::check(std::fabs(v - e) <= 1e-5 * (1 + std::fabs(e)), "loglik-after", mc::fmt("%.12g expected %.12g", v, e));
    e = (double)r.loo(r.kern.hp, r.mean.hp), v = c.compute_log_loo_cv();
    mc::check(std::fabs(v - e) <= 1e-5 * (1 + std::fabs(e)), "loo-after", mc::fmt("%.12g expected %.12g", v, e));
}
template <typename Pm, template <typename> class KT, template <typename> class MT, typename HPO, Kind KIND>
struct Sys : public GPSys<Pm, KT, MT, HPO> {
    typedef GPSys<Pm, KT, MT, HPO> B;
    typedef typename B::G G;
    using B::B;
    using B::r;
    using B::gp;
    using B::has;
    static const Kind kind = KIND;
    void verify() {}
    void set(const ref::V& p)
    {
        Oracle o{KIND, [&] { return &r; }};
        ref::V kh, mh;
        o.split(p, kh, mh);
        r.kern.hp = kh;
        r.mean.hp = mh;
    }
    void stored_score(const ref::V& p)
    {
        double v = KIND == KLOO ? gp.get_log_loo_cv() : gp.get_log_lik();
        Oracle o{KIND, [&] { return &r; }};
        double e = o.value(p);
        mc::check(std::fabs(v - e) <= 1e-5 * (1 + std::fabs(e)), "stored-score", mc::fmt("%.12g expected %.12g", v, e));
    }
    void optimise_scripted()
    {
        Oracle o{KIND, [&] { return &r; }, this->hash(), r.din, r.dout};
        g_oracle = &o;
        g_oracles = nullptr;
        g_calls = 0;
        g_final.clear();
        gp.optimize_hyperparams();
        mc::op();
        mc::check(g_calls == 1, "optimiser-calls");
        set(g_final.back());
        stored_score(g_final.back());
        compare(*this, r);
        mc::state(this->hash());
    }
};
// prefix history; optimise; suffix operation; optimise again
template <typename S>
void scripted(const D& dims, int pre, int len)
{
    auto d = mc::pick(dims);
    S s(d.first, d.second, 0);
    std::vector<int> w;
    for (int i = 0; i < pre; ++i)
        w.push_back(mc::choose(s.nops()));
    mc::shard();
    s.start();
    for (int o : w) {
        if (!s.enabled(o))
            throw mc::Skip();
        s.apply(o);
        mc::op();
    }
    if (!s.has())
        throw mc::Skip();
    // either every script right here, or fixed scripts around every further operation
    int mode = mc::choose(3);
    g_len = mode ? 2 : len;
    g_quick_script = mode ? mode : -1;
    s.optimise_scripted();
    if (!mode)
        return;
    int o = mc::choose(s.nops());
    if (!s.enabled(o))
        throw mc::Skip();
    s.apply(o);
    mc::op();
    if (s.has()) {
        compare(s, s.r);
        s.optimise_scripted();
    }
}
// the fit without kernel that optimisation completes
template <typename S>
void no_kernel(const D& dims)
{
    auto d = mc::pick(dims);
    S s(d.first, d.second, 0);
    int first = mc::choose(4), n = 1 + mc::choose(4), before = mc::choose(3);
    mc::shard();
    s.start();
    if (before)
        s.compute(0, before * 2, d.first, d.second);
    s.compute(first, n, d.first, d.second, false);
    g_len = 2;
    g_quick_script = -1;
    s.optimise_scripted();
}
template <typename S>
void real(const D& dims, int pre)
{
    auto d = mc::pick(dims);
    S s(d.first, d.second, 0);
    std::vector<int> w;
    for (int i = 0; i < pre; ++i)
        w.push_back(mc::choose(s.nops()));
    mc::shard();
    s.start();
    for (int o : w) {
        if (!s.enabled(o))
            throw mc::Skip();
        s.apply(o);
        mc::op();
    }
    if (!s.has())
        throw mc::Skip();
    for (int rep = 0; rep < 2; ++rep) {
        Oracle o{S::kind, [&] { return &s.r; }};
        double before = o.value(o.start());
        ref::GP keep = s.r;
        s.gp.optimize_hyperparams();
        mc::op();
        ref::V kh = zoo::stdv(s.gp.kernel_function().h_params()), mh = zoo::stdv(s.gp.mean_function().h_params());
        mc::check(kh.size() == s.r.kern.hp.size() && mh.size() == s.r.mean.hp.size(), "parameter-count");
        if (S::kind == MLF)
            for (size_t i = 0; i < kh.size(); ++i)
                mc::check(std::fabs(kh[i] - s.r.kern.hp[i]) < 1e-12, "untouched-kernel");
        if (S::kind == KLF || S::kind == KLOO)
            for (size_t i = 0; i < mh.size(); ++i)
                mc::check(std::fabs(mh[i] - s.r.mean.hp[i]) < 1e-12, "untouched-mean");
        s.r.kern.hp = kh;
        s.r.mean.hp = mh;
        double after = o.value(o.start());
        mc::check(after >= before - 1e-6 * (1 + std::fabs(before)), "objective-lowered", mc::fmt("%s from %.12g to %.12g", KN[S::kind], before, after));
        double big = 0;
        for (double x : kh)
            big = std::max(big, std::fabs(x));
        if (big < 2) { // well conditioned: everything must be consistent
            s.stored_score(o.start());
            compare(s, s.r, 1e-4);
            mc::count("consistent_after_real_optimiser");
        }
        mc::check(s.gp.samples() == keep.X && s.gp.observations() == keep.Y, "data-changed");
    }
    mc::state(s.hash());
}
template <int NM, bool ON, int K>
struct PO : public zoo::P<NM, ON, K> {
    struct opt_rprop {
        BO_PARAM(int, iterations, 12);
        BO_PARAM(double, eps_stop, 0.0);
    };
    struct opt_nloptgrad {
        BO_PARAM(int, iterations, 12);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
    struct opt_nloptnograd {
        BO_PARAM(int, iterations, 25);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
};
typedef PO<20, false, 0> Q0;
typedef PO<20, true, 0> QN;
typedef PO<20, false, 1> QK1;
template <typename Pm>
using RP = limbo::opt::Rprop<Pm>;
template <typename Pm>
using LB = limbo::opt::NLOptGrad<Pm, nlopt::LD_LBFGS>;
template <typename Pm>
using SB = limbo::opt::NLOptNoGrad<Pm, nlopt::LN_SBPLX>;

#define SCR(NAME, PM, K, M, KIND, HP, DIMS, PRE, LEN)                                                          \
    typedef Sys<PM, zoo::K, zoo::M, limbo::model::gp::HP<PM, Scripted<PM>>, KIND> S_##NAME;                    \
    MC_SUITE(#NAME, [] { scripted<S_##NAME>(DIMS, mc::tier(PRE, PRE + 1), mc::tier(LEN, LEN)); }, 24)
#define REAL(NAME, PM, K, M, KIND, HP, OPT, DIMS, PRE)                                                         \
    typedef Sys<PM, zoo::K, zoo::M, limbo::model::gp::HP<PM, OPT<PM>>, KIND> R_##NAME;                         \
    MC_SUITE("real_" #NAME, [] { real<R_##NAME>(DIMS, mc::tier(PRE, PRE + 1)); }, 24)
#if PART == 0
SCR(klf_exp_data, Q0, KExp, MData, KLF, KernelLFOpt, (D{{1, 1}}), 2, 3);
SCR(klf_ardn_fard, QN, KARD, MFArdC, KLF, KernelLFOpt, (D{{2, 2}}), 2, 2);
MC_SUITE("nokernel_klf", [] { no_kernel<S_klf_ardn_fard>(D{{2, 2}, {1, 1}}); }, 8);
REAL(klf_m52, Q0, KM52, MData, KLF, KernelLFOpt, RP, (D{{2, 1}}), 2);
#elif PART == 1
SCR(loo_m52n_const, QN, KM52, MConst, KLOO, KernelLooOpt, (D{{2, 2}}), 2, 2);
SCR(loo_ardk1_data, QK1, KARD, MData, KLOO, KernelLooOpt, (D{{2, 1}}), 2, 2);
MC_SUITE("nokernel_loo", [] { no_kernel<S_loo_m52n_const>(D{{2, 2}, {1, 1}}); }, 8);
REAL(loo_exp, Q0, KExp, MData, KLOO, KernelLooOpt, RP, (D{{2, 1}}), 2);
REAL(klf_lbfgs, QN, KARD, MConst, KLF, KernelLFOpt, LB, (D{{1, 1}}), 1);
#elif PART == 2
SCR(mlf_exp_fardd, Q0, KExp, MFArdD, MLF, MeanLFOpt, (D{{2, 2}}), 2, 2);
SCR(mlf_m32n_const, QN, KM32, MConst, MLF, MeanLFOpt, (D{{1, 3}}), 2, 2);
REAL(mlf_const, Q0, KExp, MConst, MLF, MeanLFOpt, RP, (D{{2, 2}}), 2);
#elif PART == 3
SCR(kmlf_exp_fardd, Q0, KExp, MFArdD, KMLF, KernelMeanLFOpt, (D{{2, 2}}), 2, 2);
SCR(kmlf_ardn_const, QN, KARD, MConst, KMLF, KernelMeanLFOpt, (D{{2, 1}}), 2, 2);
MC_SUITE("nokernel_kmlf", [] { no_kernel<S_kmlf_ardn_const>(D{{2, 2}, {1, 1}}); }, 8);
REAL(kmlf_const, Q0, KExp, MConst, KMLF, KernelMeanLFOpt, RP, (D{{1, 2}}), 2);
REAL(kmlf_sbplx, Q0, KM32, MConst, KMLF, KernelMeanLFOpt, SB, (D{{1, 1}}), 1);
#elif PART == 4
// multi-output models: every sub-model is optimised on its own likelihood
template <typename Pm, template <typename> class KT, template <typename> class MT>
void multi(const D& dims, int pre)
{
    typedef limbo::model::multi_gp::ParallelLFOpt<Pm, limbo::model::gp::KernelLFOpt<Pm, Scripted<Pm>>> H;
    typedef MultiSys<Pm, KT, MT, H> S;
    auto d = mc::pick(dims);
    S s(d.first, d.second, 0);
    std::vector<int> w;
    for (int i = 0; i < pre; ++i)
        w.push_back(mc::choose(s.nops()));
    mc::shard();
    s.start();
    for (int o : w) {
        if (!s.enabled(o))
            throw mc::Skip();
        s.apply(o);
        mc::op();
    }
    if (!s.has())
        throw mc::Skip();
    g_len = 1;
    int mode = mc::choose(3);
    for (int rep = 0; rep < (mode ? 2 : 1); ++rep) {
        g_quick_script = mode ? mode : -1;
        std::vector<Oracle> os;
        s.prepare();
        for (int i = 0; i < s.rdout; ++i)
            os.push_back(Oracle{KLF, [&s, i] { return &s.sub[i]; }, s.hash() * 31 + i, s.rdin, 1});
        g_oracles = &os;
        g_next = 0;
        g_final.clear();
        s.gp.optimize_hyperparams();
        mc::op();
        g_oracles = nullptr;
        mc::check((int)g_final.size() == s.rdout, "sub-models-optimised", mc::fmt("%zu of %d", g_final.size(), s.rdout));
        for (int i = 0; i < s.rdout; ++i)
            s.kern[i].hp = g_final[i];
        s.dirty = true;
        s.verify();
        if (!mode)
            return;
        int o = mc::choose(s.nops());
        if (!s.enabled(o))
            throw mc::Skip();
        s.apply(o);
        if (!s.has())
            throw mc::Skip();
        s.verify();
    }
}
MC_SUITE("multi_exp_data", [] { multi<Q0, zoo::KExp, zoo::MData>(D{{1, 2}}, mc::tier(1, 2)); }, 24);
MC_SUITE("multi_ardn_const", [] { multi<QN, zoo::KARD, zoo::MFArdC>(D{{2, 2}}, 1); }, 24);
#endif
MC_MAIN
