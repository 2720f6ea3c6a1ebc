// Multi-output model under test in lockstep with one exact posterior per output.
#ifndef VERIF_MULTISYS_HPP
#define VERIF_MULTISYS_HPP
#include "seq.hpp"
#include "zoo.hpp"
#include <limbo/model/gp.hpp>
#include <limbo/model/gp/no_lf_opt.hpp>
#include <limbo/model/multi_gp.hpp>
using Eigen::VectorXd;
template <typename Pm, template <typename> class KT, template <typename> class MT, typename HPO = limbo::model::gp::NoLFOpt<Pm>>
struct MultiSys {
    typedef limbo::model::MultiGP<Pm, limbo::model::GP, typename KT<Pm>::type, typename MT<Pm>::type, HPO> G;
    G gp;
    // reference
    int rdin = -1, rdout = -1;
    std::vector<ref::Kernel> kern;
    ref::Mean mean;
    std::vector<VectorXd> X, Y;
    std::vector<ref::GP> sub;
    ref::Vec dm;
    bool dirty = true;
    int din, dout, init;
    MultiSys(int a, int b, int i) : din(a), dout(b), init(i) {}
    void dims(int a, int b)
    {
        bool rk = a != rdin || b != rdout;
        if (b != rdout) {
            mean = MT<Pm>::make();
            mean.reset(b);
        }
        if (rk) {
            kern.assign(b, KT<Pm>::make());
            for (auto& k : kern)
                k.reset(a);
        }
        rdin = a;
        rdout = b;
        dirty = true;
    }
    void start()
    {
        mean = MT<Pm>::make();
        if (init == 1) {
            gp = G(din, dout);
            dims(din, dout);
        }
        verify();
    }
    int nops() const { return 19; }
    bool has() const { return !X.empty(); }
    bool enabled(int o) const
    {
        switch (o) {
        case 5: case 6: case 9: case 17: return rdin > 0;
        case 7: case 8: return rdin > 0 && mean.size() > 0;
        case 10: case 11: case 16: return has();
        case 18: return has();
        default: return true;
        }
    }
    void setk(int i, int j)
    {
        VectorXd p = zoo::kparams(j, kern[i]);
        gp.gp_models()[i].kernel_function().set_h_params(p);
        kern[i].hp = zoo::stdv(p);
        dirty = true;
    }
    void setm(int j)
    {
        if (!mean.size())
            return;
        VectorXd p = zoo::params(j, mean.size(), 1.0);
        gp.mean_function().set_h_params(p);
        mean.hp = zoo::stdv(p);
        dirty = true;
    }
    void add(int i, int j)
    {
        // an empty model with declared dimensions is used with those dimensions
        int a = rdin > 0 ? rdin : din, b = rdin > 0 ? rdout : dout;
        VectorXd x = zoo::point(i, a), y = zoo::obs(j, b);
        gp.add_sample(x, y);
        if (rdin < 0)
            dims(a, b);
        X.push_back(x);
        Y.push_back(y);
        dirty = true;
    }
    void compute(int first, int n, int a, int b)
    {
        std::vector<VectorXd> X_, Y_;
        for (int i = 0; i < n; ++i) {
            X_.push_back(zoo::point(first + i, a));
            Y_.push_back(zoo::obs(first + 2 * i, b));
        }
        gp.compute(X_, Y_);
        dims(a, b);
        X = X_;
        Y = Y_;
    }
    void refresh(bool a, bool b)
    {
        if (has())
            gp.recompute(a, b);
    }
    void apply(int o)
    {
        mc::note(mc::fmt("op%d", o));
        switch (o) {
        case 0: add(X.size(), X.size()); break;
        case 1: add(X.size() + 3, 1); break;
        case 2: compute(0, 2, din, dout); break;
        case 3: compute(1, 5, din, dout); break;
        case 4: compute(7, 1, din, dout); break;
        case 5: setk(rdout - 1, 0); refresh(false, true); break;
        case 6: for (int i = 0; i < rdout; ++i) setk(i, i); refresh(true, true); break;
        case 7: setm(0); refresh(true, false); break;
        case 8: setm(1); refresh(true, true); break;
        case 9: setk(0, 2); setm(2); if (has()) gp.recompute(); break;
        case 10: gp.recompute(false, false); break;
        case 11: gp.recompute(true, false); break;
        case 12: {
            G c(gp);
            if (rdin > 0) {
                gp.add_sample(zoo::point(9, rdin), zoo::obs(5, rdout));
                gp.gp_models()[0].kernel_function().set_h_params(zoo::kparams(3, kern[0]));
            }
            gp = c;
            break;
        }
        case 13: {
            G c;
            c.add_sample(zoo::point(2, din + 1), zoo::obs(2, dout));
            c = gp;
            gp = G();
            gp = std::move(c);
            break;
        }
        case 14: compute(2, 3, din + 1, dout); break;
        case 15: compute(3, 2, din, dout + 1); break;
        case 16: { // same inputs, new observations, kernel matrices kept
            std::vector<VectorXd> Y_;
            for (size_t i = 0; i < X.size(); ++i)
                Y_.push_back(zoo::obs(i + 4, rdout));
            std::vector<VectorXd> X_ = X;
            gp.compute(X_, Y_, false);
            gp.recompute(false, false);
            Y = Y_;
            dirty = true;
            break;
        }
        case 17: setk(0, 1); setm(1); compute(4, 3, rdin, rdout); break;
        case 18: for (auto& g : gp.gp_models()) { g.compute_log_lik(); g.compute_kernel_grad_log_lik(); } break;
        }
    }
    uint64_t hash() const
    {
        uint64_t h = mc::hash_str("m");
        for (auto& x : X)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        for (auto& x : Y)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        for (auto& k : kern)
            h = mc::hash_bytes(k.hp.data(), 8 * k.hp.size(), h);
        return mc::hash_bytes(mean.hp.data(), 8 * mean.hp.size(), h ^ rdin * 31 ^ rdout);
    }
    void prepare()
    {
        if (!dirty)
            return;
        dm = ref::Vec::Zero(rdout);
        for (auto& y : Y)
            dm += y.cast<ref::LD>();
        if (has())
            dm /= (ref::LD)Y.size();
        ref::Vec m = mean.value(dm);
        sub.assign(rdout, ref::GP());
        for (int i = 0; i < rdout; ++i) {
            sub[i].kern = kern[i];
            sub[i].mean.t = ref::NUL;
            sub[i].din = rdin;
            sub[i].dout = 1;
            sub[i].mean.dim = 1;
            sub[i].X = X;
            for (auto& y : Y)
                sub[i].Y.push_back(VectorXd::Constant(1, (double)((ref::LD)y[i] - m[i])));
        }
        dirty = false;
    }
    virtual void verify()
    {
        if (rdin < 0)
            return;
        mc::state(hash());
        prepare();
        const G& g = gp;
        mc::check(g.dim_in() == rdin && g.dim_out() == rdout, "dims");
        mc::check(g.nb_samples() == (int)X.size(), "nb_samples");
        mc::check((int)gp.gp_models().size() == rdout && (int)g.gp_models().size() == rdout, "number of models");
        double scale = 1;
        if (has()) {
            mc::check(g.samples() == X, "samples");
            mc::check(g.observations().size() == Y.size(), "observations");
            auto om = g.observations_matrix();
            mc::check(om.rows() == (int)Y.size() && om.cols() == rdout, "observations_matrix");
            for (size_t i = 0; i < Y.size(); ++i) {
                mc::check(g.observations()[i] == Y[i] && om.row(i).transpose() == Y[i], "observations");
                scale = std::max(scale, Y[i].cwiseAbs().maxCoeff());
            }
            for (auto& s : gp.gp_models())
                mc::check(s.samples() == X && s.nb_samples() == (int)X.size(), "sub-model samples");
        }
        VectorXd mo = g.mean_observation();
        for (int i = 0; i < rdout; ++i)
            mc::check(zoo::close(mo[i], dm[i], 1e-10 * scale), "mean_observation");
        mc::check(g.mean_function().h_params_size() == mean.size(), "mean-hp-size");
        for (size_t i = 0; i < mean.hp.size(); ++i)
            mc::check(std::fabs(g.mean_function().h_params()[i] - mean.hp[i]) < 1e-12, "mean-hp");
        for (int i = 0; i < rdout; ++i)
            for (size_t k = 0; k < kern[i].hp.size(); ++k)
                mc::check(std::fabs(gp.gp_models()[i].kernel_function().h_params()[k] - kern[i].hp[k]) < 1e-12, "kernel-hp");
        std::vector<VectorXd> q = {zoo::point(5, rdin), VectorXd::Constant(rdin, 0.5), VectorXd::Constant(rdin, 40.)};
        if (has()) {
            q.push_back(X.front());
            q.push_back(X.back());
        }
        ref::Vec m = mean.value(dm);
        for (auto& v : q) {
            VectorXd gm = g.mu(v), gs = g.sigma(v), qm, qs;
            std::tie(qm, qs) = g.query(v);
            mc::check(gm.size() == rdout && gs.size() == rdout && qm.size() == rdout && qs.size() == rdout, "query-size");
            for (int i = 0; i < rdout; ++i) {
                ref::LD em = sub[i].mu(v)[0] + m[i], es = sub[i].var(v);
                mc::check(zoo::close(gm[i], em, 1e-5 * scale), "mu", mc::fmt("at %s: mu[%d]=%.12g expected %.12Lg", zoo::str(v).c_str(), i, gm[i], em));
                mc::check(zoo::close(gs[i], es, 1e-5), "sigma", mc::fmt("at %s: sigma[%d]=%.12g expected %.12Lg", zoo::str(v).c_str(), i, gs[i], es));
                mc::check(std::fabs(gm[i] - qm[i]) <= 1e-9 * scale && std::fabs(gs[i] - qs[i]) <= 1e-10, "query");
            }
        }
        if (has())
            for (int i = 0; i < rdout; ++i) {
                typename G::GP_t c(gp.gp_models()[i]);
                double v = c.compute_log_lik(), e = (double)sub[i].loglik(kern[i].hp, {});
                mc::check(std::fabs(v - e) <= 1e-5 * (1 + std::fabs(e)), "sub-model likelihood", mc::fmt("%.12g expected %.12g", v, e));
            }
    }
    virtual ~MultiSys() {}
};
typedef std::vector<std::pair<int, int>> D;
#ifndef PART
#define PART 0
#endif
#endif
