// GP under test in lockstep with its reference model: the operation alphabet shared by M01, M02, M08.
#ifndef VERIF_GPSYS_HPP
#define VERIF_GPSYS_HPP
#include "seq.hpp"
#include "zoo.hpp"
#include <limbo/model/gp.hpp>
#include <limbo/model/gp/no_lf_opt.hpp>

using Eigen::VectorXd;
template <typename Pm, template <typename> class KT, template <typename> class MT, typename HPO = limbo::model::gp::NoLFOpt<Pm>>
struct GPSys {
    typedef limbo::model::GP<Pm, typename KT<Pm>::type, typename MT<Pm>::type, HPO> G;
    G gp;
    ref::GP r;
    int din, dout;
    int init; // 0 default constructed, 1 with the right dimensions, 2 with other dimensions
    int nadd = 0;
    bool ready = false;
    GPSys(int a, int b, int init_) : din(a), dout(b), init(init_) {}
    void start()
    {
        r.kern = KT<Pm>::make();
        r.mean = MT<Pm>::make();
        if (init == 1) {
            gp = G(din, dout);
            r.dims(din, dout);
        }
        else if (init == 2) {
            gp = G(din + 1, dout + 1);
            r.dims(din + 1, dout + 1);
        }
        verify();
    }
    int nops() const { return 22; }
    bool has() const { return !r.X.empty(); }
    bool enabled(int o) const
    {
        switch (o) {
        case 5: case 6: return r.din > 0 && r.kern.size() > 0;
        case 7: case 8: return r.din > 0 && r.mean.size() > 0;
        case 9: case 18: return r.din > 0;
        case 10: case 11: case 16: case 17: case 20: case 21: return has();
        default: return true;
        }
    }
    void setk(int j)
    {
        VectorXd p = zoo::kparams(j, r.kern);
        gp.kernel_function().set_h_params(p);
        r.kern.hp = zoo::stdv(p);
        r.dirty = true;
    }
    void setm(int j)
    {
        if (!r.mean.size())
            return;
        VectorXd p = zoo::params(j, r.mean.size(), 1.0);
        gp.mean_function().set_h_params(p);
        r.mean.hp = zoo::stdv(p);
        r.dirty = true;
    }
    void add(int i, int j)
    {
        VectorXd x = zoo::point(i, has() ? r.din : din), y = zoo::obs(j, has() ? r.dout : dout);
        gp.add_sample(x, y);
        if (!has())
            r.dims(x.size(), y.size());
        r.X.push_back(x);
        r.Y.push_back(y);
        r.dirty = true;
    }
    void compute(int first, int n, int a, int b, bool ck = true)
    {
        std::vector<VectorXd> X, Y;
        for (int i = 0; i < n; ++i) {
            X.push_back(zoo::point(first + i, a));
            Y.push_back(zoo::obs(first + 2 * i, b));
        }
        gp.compute(X, Y, ck);
        r.dims(a, b);
        r.X = X;
        r.Y = Y;
        r.dirty = true;
    }
    void apply(int o)
    {
        mc::note(mc::fmt("op%d", o));
        switch (o) {
        case 0: add(r.X.size(), r.X.size()); break;
        case 1: add(r.X.size() + 3, 1); break; // may repeat an input
        case 2: compute(0, 2, din, dout); break;
        case 3: compute(1, 5, din, dout); break;
        case 4: compute(7, 1, din, dout); break;
        case 5: setk(0); gp_refresh(false, true); break;
        case 6: setk(1); gp_refresh(true, true); break;
        case 7: setm(0); gp_refresh(true, false); break;
        case 8: setm(1); gp_refresh(true, true); break;
        case 9: setk(2); setm(2); if (has()) gp.recompute(); break;
        case 10: gp.recompute(false, false); break;
        case 11: gp.recompute(true, false); break;
        case 12: { // continue on a copy, then disturb the original
            G c(gp);
            if (gp.samples().empty() ? false : true)
                gp.add_sample(zoo::point(9, r.din), zoo::obs(5, r.dout));
            else if (r.din > 0)
                gp.add_sample(zoo::point(9, r.din), zoo::obs(5, r.dout));
            if (r.din > 0)
                gp.kernel_function().set_h_params(zoo::kparams(3, r.kern));
            gp = c;
            break;
        }
        case 13: { // copy-assign over a used model, move back
            G c;
            c.add_sample(zoo::point(2, din + 1), zoo::obs(2, dout));
            c = gp;
            gp = G();
            gp = std::move(c);
            break;
        }
        case 14: compute(2, 3, din + 1, dout); break;
        case 15: compute(3, 2, din, dout + 1); break;
        case 16: { // same inputs, new observations, kernel matrix kept
            std::vector<VectorXd> X = r.X, Y;
            for (size_t i = 0; i < X.size(); ++i)
                Y.push_back(zoo::obs(i + 4, r.dout));
            gp.compute(X, Y, false);
            gp.recompute(false, false);
            r.Y = Y;
            r.dirty = true;
            break;
        }
        case 17: // fill every cache
            gp.compute_inv_kernel();
            gp.compute_log_lik();
            gp.compute_log_loo_cv();
            gp.compute_kernel_grad_log_lik();
            break;
        case 18: setk(1); setm(1); compute(4, 3, r.din, r.dout); break;
        case 19: setkn(); break;
        case 20:
            gp.compute_log_lik();
            if (r.mean.size())
                gp.compute_mean_grad_log_lik();
            break;
        case 21:
            gp.compute_log_loo_cv();
            gp.compute_kernel_grad_log_loo_cv();
            break;
        }
    }
    void setkn() { compute(6, 4, din + 1, dout + 1); }
    void gp_refresh(bool a, bool b)
    {
        if (has())
            gp.recompute(a, b);
    }
    uint64_t hash() const
    {
        uint64_t h = mc::hash_str("s");
        for (auto& x : r.X)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        for (auto& x : r.Y)
            h = mc::hash_bytes(x.data(), 8 * x.size(), h);
        h = mc::hash_bytes(r.kern.hp.data(), 8 * r.kern.hp.size(), h);
        return mc::hash_bytes(r.mean.hp.data(), 8 * r.mean.hp.size(), h ^ r.din * 31 ^ r.dout);
    }
    virtual void verify() = 0;
    virtual ~GPSys() {}
};
template <typename S>
void run(const std::vector<std::pair<int, int>>& dims, int depth, int upfront)
{
    auto d = mc::pick(dims);
    int init = mc::choose(3);
    S s(d.first, d.second, init);
    seq::histories(s, depth, upfront);
}
template <typename S>
void run_lasso(const std::vector<std::pair<int, int>>& dims, int P, int C, int total)
{
    auto d = mc::pick(dims);
    int init = mc::choose(2);
    S s(d.first, d.second, init);
    seq::lassos(s, P, C, total);
}
typedef std::vector<std::pair<int, int>> D;
#ifndef PART
#define PART 0
#endif
#endif
