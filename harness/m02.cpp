// M02: scores and their gradients always describe the current data and parameters.
#include "gpsys.hpp"
#include <unordered_map>

struct Expect {
    double ll, loo;
    ref::V gk, gl, gm;
};
template <typename Pm, template <typename> class KT, template <typename> class MT>
struct Sys : public GPSys<Pm, KT, MT> {
    typedef GPSys<Pm, KT, MT> B;
    typedef typename B::G G;
    using B::B;
    using B::r;
    using B::gp;
    using B::has;
    const Expect& expect()
    {
        static std::unordered_map<uint64_t, Expect> memo;
        uint64_t h = this->hash();
        auto it = memo.find(h);
        if (it != memo.end())
            return it->second;
        Expect e;
        e.ll = (double)r.loglik(r.kern.hp, r.mean.hp);
        e.loo = (double)r.loo(r.kern.hp, r.mean.hp);
        e.gk = r.grad_loglik_kernel();
        e.gl = r.grad_loo_kernel();
        e.gm = r.grad_loglik_mean();
        return memo[h] = e;
    }
    static void cmp(const Eigen::VectorXd& g, const ref::V& e, const char* key)
    {
        mc::check(g.size() == (int)e.size(), std::string(key) + "-size");
        double s = 1;
        for (double x : e)
            s = std::max(s, std::fabs(x));
        for (size_t i = 0; i < e.size(); ++i)
            mc::check(std::fabs(g[i] - e[i]) <= 2e-5 * s, key, mc::fmt("[%zu] %.12g expected %.12g", i, g[i], e[i]));
    }
    void verify()
    {
        if (!has())
            return;
        mc::state(this->hash());
        const Expect& e = expect();
        double s = 1 + std::fabs(e.ll), s2 = 1 + std::fabs(e.loo);
        {
            G c(gp);
            double v = c.compute_log_lik();
            mc::check(std::fabs(v - e.ll) <= 1e-5 * s, "loglik", mc::fmt("%.12g expected %.12g", v, e.ll));
            mc::check(c.get_log_lik() == v, "get_log_lik");
        }
        {
            G c(gp);
            double v = c.compute_log_loo_cv();
            mc::check(std::fabs(v - e.loo) <= 1e-5 * s2, "loo", mc::fmt("%.12g expected %.12g", v, e.loo));
            mc::check(c.get_log_loo_cv() == v, "get_log_loo_cv");
        }
        {
            G c(gp);
            cmp(c.compute_kernel_grad_log_lik(), e.gk, "kernel-grad");
        }
        {
            G c(gp);
            cmp(c.compute_kernel_grad_log_loo_cv(), e.gl, "loo-grad");
            // evaluated again, and after the others
            cmp(c.compute_kernel_grad_log_lik(), e.gk, "kernel-grad-2");
            double v = c.compute_log_loo_cv();
            mc::check(std::fabs(v - e.loo) <= 1e-5 * s2, "loo-2");
        }
        if (r.mean.size()) {
            G c(gp);
            cmp(c.compute_mean_grad_log_lik(), e.gm, "mean-grad");
            cmp(c.compute_mean_grad_log_lik(), e.gm, "mean-grad-2");
        }
        {
            G c(gp);
            c.set_log_lik(-12.5);
            c.set_log_loo_cv(3.25);
            mc::check(c.get_log_lik() == -12.5 && c.get_log_loo_cv() == 3.25, "set-score");
        }
    }
};
#define INST(NAME, PM, K, M, DIMS, DQ, DT)                                                   \
    typedef Sys<zoo::PM, zoo::K, zoo::M> S_##NAME;                                           \
    MC_SUITE(#NAME, [] { run<S_##NAME>(DIMS, mc::tier(DQ, DT), 2); }, 24);                   \
    MC_SUITE(#NAME "_lasso", [] { run_lasso<S_##NAME>(DIMS, 1, 2, mc::tier(7, 12)); }, 16)
#if PART == 0
INST(exp_data, P0, KExp, MData, (D{{1, 1}}), 3, 5);
INST(m52_farddata, P0, KM52, MFArdD, (D{{2, 2}}), 3, 4);
#elif PART == 1
INST(ard_const, PN, KARD, MConst, (D{{2, 2}}), 3, 4);
INST(m32_null, P0, KM32, MNull, (D{{1, 1}, {3, 3}}), 3, 4);
#elif PART == 2
INST(ardk1_fardconst, PK1, KARD, MFArdC, (D{{2, 1}}), 3, 4);
INST(m52n_data, PN, KM52, MData, (D{{1, 2}}), 3, 4);
#elif PART == 3
INST(ardk2n_fardnull, PK2N, KARD, MFArdN, (D{{2, 2}}), 3, 4);
INST(expn_const, PN, KExp, MConst, (D{{2, 1}}), 4, 5);
INST(m32n_data, PN, KM32, MData, (D{{2, 1}}), 3, 4);
#endif
MC_MAIN
