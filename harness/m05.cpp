// M05: sparsification keeps a bounded, faithful, density-pruned subset of the data.
#include "mc.hpp"
#include "zoo.hpp"
#include <limbo/model/gp/no_lf_opt.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <set>
using Eigen::VectorXd;
struct Pm : public zoo::P<20, false, 0> {
    struct model_sparse_gp {
        BO_DYN_PARAM(int, max_points);
    };
};
BO_DECLARE_DYN_PARAM(int, Pm::model_sparse_gp, max_points);

typedef std::vector<std::pair<VectorXd, VectorXd>> Pairs;
static VectorXd pt(int i, int d)
{
    // repeated distances on purpose (ties) in 1-D, generic position otherwise
    static const double b[7] = {0.0, 0.5, 1.0, 0.6, -2.0, 0.5, 1.75};
    VectorXd v(d);
    for (int k = 0; k < d; ++k)
        v[k] = b[(i * (k + 1)) % 7] * (1 + 0.3 * k) + (k ? 0.07 * i : 0);
    return v;
}
// every outcome that the documented pruning rule allows (ties may be broken either way)
static void prune(const Pairs& p, int cap, std::set<std::vector<int>>& out, std::vector<int> idx, std::set<std::vector<int>>& seen)
{
    if (!seen.insert(idx).second)
        return;
    int n = idx.size();
    if (n <= cap) {
        out.insert(idx);
        return;
    }
    int D = std::min<int>(p[0].first.size(), n - 1);
    std::vector<double> dens(n);
    double mn = 1e300;
    for (int i = 0; i < n; ++i) {
        std::vector<double> ds;
        for (int j = 0; j < n; ++j)
            if (i != j)
                ds.push_back((p[idx[i]].first - p[idx[j]].first).norm());
        std::sort(ds.begin(), ds.end());
        dens[i] = 0;
        for (int k = 0; k < D; ++k)
            dens[i] += ds[k];
        mn = std::min(mn, dens[i]);
    }
    for (int i = 0; i < n; ++i)
        if (dens[i] <= mn + 1e-9) {
            std::vector<int> r = idx;
            r.erase(r.begin() + i);
            prune(p, cap, out, r, seen);
        }
}
template <template <typename> class KT, template <typename> class MT>
struct Sys {
    typedef limbo::model::SparsifiedGP<Pm, typename KT<Pm>::type, typename MT<Pm>::type, limbo::model::gp::NoLFOpt<Pm>> G;
    G gp;
    ref::GP r;
    Pairs cur;
    int d, cap, serial = 0;
    bool has = false;
    void start(int d_, int cap_)
    {
        d = d_;
        cap = cap_;
        r.kern = KT<Pm>::make();
        r.mean = MT<Pm>::make();
        r.dims(d, 2);
        gp = G(d, 2);
        Pm::model_sparse_gp::set_max_points(cap);
    }
    VectorXd y()
    {
        serial++;
        VectorXd v(2);
        v << 0.3 * serial, 1.0 - serial * serial * 0.1; // distinct: identifies the pair
        return v;
    }
    void accept(Pairs given)
    {
        std::vector<int> idx;
        for (size_t i = 0; i < given.size(); ++i)
            idx.push_back(i);
        std::set<std::vector<int>> out, seen;
        prune(given, cap, out, idx, seen);
        const auto& X = gp.samples();
        auto Y = gp.observations();
        mc::check(X.size() == Y.size(), "pairing", "samples and observations differ in number");
        mc::check(gp.nb_samples() == (int)X.size(), "nb_samples");
        mc::check((int)X.size() == std::min<int>(cap, given.size()), "size", mc::fmt("%zu points kept of %zu with a cap of %d", X.size(), given.size(), cap));
        bool ok = false;
        for (auto& o : out) {
            bool same = o.size() == X.size();
            for (size_t i = 0; same && i < o.size(); ++i)
                same = given[o[i]].first == X[i] && given[o[i]].second == Y[i];
            ok = ok || same;
        }
        if (!ok) {
            std::string s = "given";
            for (auto& g : given)
                s += " " + zoo::str(g.first) + "->" + zoo::str(g.second);
            s += " kept";
            for (size_t i = 0; i < X.size(); ++i)
                s += " " + zoo::str(X[i]) + "->" + zoo::str(Y[i]);
            mc::fail("kept-points", s);
        }
        cur.clear();
        r.X.clear();
        r.Y.clear();
        for (size_t i = 0; i < X.size(); ++i) {
            cur.push_back({X[i], Y[i]});
            r.X.push_back(X[i]);
            r.Y.push_back(Y[i]);
        }
        r.dirty = true;
        has = true;
        mc::count("outcomes_allowed", out.size());
        verify();
    }
    void add(const VectorXd& x)
    {
        VectorXd yy = y();
        Pairs given = cur;
        given.push_back({x, yy});
        gp.add_sample(x, yy);
        mc::op();
        accept(given);
    }
    void compute(const std::vector<VectorXd>& X, bool ck = true)
    {
        Pairs given;
        std::vector<VectorXd> Y;
        for (auto& x : X) {
            Y.push_back(y());
            given.push_back({x, Y.back()});
        }
        gp.compute(X, Y, ck);
        if (!ck)
            gp.recompute(false, true);
        mc::op();
        accept(given);
    }
    void verify()
    {
        std::string st;
        for (auto& p : cur)
            st += zoo::str(p.first);
        mc::state(mc::fmt("%d/%d ", d, cap) + st);
        const G& g = gp;
        std::vector<VectorXd> q = {cur[0].first, cur.back().first, VectorXd::Constant(d, 0.3), VectorXd::Constant(d, -4.)};
        double scale = 10;
        for (auto& v : q) {
            ref::Vec m = r.mu(v);
            VectorXd gm = g.mu(v);
            for (int i = 0; i < 2; ++i)
                mc::check(zoo::close(gm[i], m[i], 1e-5 * scale), "mu", mc::fmt("%.12g expected %.12Lg", gm[i], m[i]));
            mc::check(zoo::close(g.sigma(v), r.var(v), 1e-5), "sigma");
        }
    }
};
// batch fit of every point list, then (optionally) every continuation by additions
template <typename S>
void batch(int maxlen, int na)
{
    int d = 1 + mc::choose(4), cap = 1 + mc::choose(4), n = 1 + mc::choose(maxlen), batchn = mc::choose(n + 1);
    std::vector<int> ids;
    ids.push_back(mc::choose(na));
    mc::shard();
    for (int i = 1; i < n; ++i)
        ids.push_back(mc::choose(na));
    S s;
    s.start(d, cap);
    std::vector<VectorXd> X;
    std::string t;
    for (int i : ids)
        t += std::to_string(i);
    mc::note(mc::fmt("d=%d cap=%d points %s, first %d in a batch", d, cap, t.c_str(), batchn));
    for (int i = 0; i < batchn; ++i)
        X.push_back(pt(ids[i], d));
    if (batchn)
        s.compute(X);
    for (int i = batchn; i < n; ++i)
        s.add(pt(ids[i], d));
}
// histories mixing fits, additions, parameter changes and copies
template <typename S>
void hist(int depth)
{
    int d = 1 + mc::choose(3), cap = 1 + mc::choose(3);
    std::vector<int> pre = {mc::choose(9), mc::choose(9)};
    mc::shard();
    S s;
    s.start(d, cap);
    for (int i = 0; i < depth; ++i) {
        int o = i < 2 ? pre[i] : mc::choose(9);
        mc::note(mc::fmt("op%d", o));
        std::vector<VectorXd> X;
        switch (o) {
        case 0: case 1: case 2: s.add(pt(o * 2 + i, s.d)); break;
        case 3: for (int k = 0; k < 5; ++k) X.push_back(pt(k + i, s.d)); s.compute(X); break;
        case 4: for (int k = 0; k < 2; ++k) X.push_back(pt(k * 3, s.d)); s.compute(X); break;
        case 5: for (int k = 0; k < 4; ++k) X.push_back(pt(k * k, s.d)); s.compute(X, false); break;
        case 6: {
            VectorXd p = zoo::kparams(i, s.r.kern);
            s.gp.kernel_function().set_h_params(p);
            s.r.kern.hp = zoo::stdv(p);
            s.r.dirty = true;
            if (s.has) {
                s.gp.recompute(false, true);
                s.verify();
            }
            break;
        }
        case 7: {
            typename S::G c(s.gp);
            s.gp.add_sample(pt(6, s.d), s.y());
            s.gp = c;
            if (s.has)
                s.verify();
            break;
        }
        case 8: s.cap = s.cap % 4 + 1; Pm::model_sparse_gp::set_max_points(s.cap); break;
        }
        mc::op();
    }
}
typedef Sys<zoo::KExp, zoo::MData> S1;
typedef Sys<zoo::KM52, zoo::MConst> S2;
MC_SUITE("lists_exp_data", [] { batch<S1>(mc::tier(5, 7), 5); }, 24);
MC_SUITE("lists_m52_const", [] { batch<S2>(mc::tier(4, 6), 6); }, 24);
MC_SUITE("histories_exp_data", [] { hist<S1>(mc::tier(5, 6)); }, 24);
// large dimension, few points; long streams
MC_SUITE("streams", [] {
    int d = 1 + mc::choose(6), cap = 1 + mc::choose(8), stride = 1 + mc::choose(6);
    mc::shard();
    S1 s;
    s.start(d, cap);
    for (int i = 0; i < 16; ++i) {
        VectorXd x = pt(i * stride, d);
        x[0] += 0.01 * ((i * 5) % 11);
        s.add(x);
    }
}, 8);
MC_MAIN
