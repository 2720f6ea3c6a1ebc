// M04: a multi-output model equals independent single-output models plus the shared mean.
#include "multisys.hpp"
template <typename S>
void run(const D& dims, int depth)
{
    auto d = mc::pick(dims);
    S s(d.first, d.second, mc::choose(2));
    seq::histories(s, depth, 2);
}
template <typename S>
void run_lasso(const D& dims, int total)
{
    auto d = mc::pick(dims);
    S s(d.first, d.second, mc::choose(2));
    seq::lassos(s, 1, 2, total);
}
#define INST(NAME, PM, K, M, DIMS, DQ, DT)                                                   \
    typedef MultiSys<zoo::PM, zoo::K, zoo::M> S_##NAME;                                      \
    MC_SUITE(#NAME, [] { run<S_##NAME>(DIMS, mc::tier(DQ, DT)); }, 24);                      \
    MC_SUITE(#NAME "_lasso", [] { run_lasso<S_##NAME>(DIMS, mc::tier(7, 12)); }, 16)
#if PART == 0
INST(exp_data, P0, KExp, MData, (D{{1, 1}, {2, 2}}), 3, 4);
INST(m52n_farddata, PN, KM52, MFArdD, (D{{2, 2}}), 3, 4);
#elif PART == 1
INST(ard_const, PN, KARD, MConst, (D{{2, 3}}), 3, 4);
INST(m32_null, P0, KM32, MNull, (D{{1, 2}}), 3, 4);
#elif PART == 2
INST(m52_fardconst, P0, KM52, MFArdC, (D{{1, 2}, {3, 3}}), 3, 4);
INST(ardk1_data, PK1, KARD, MData, (D{{2, 2}}), 3, 4);
#endif
#if PART == 1
#include <limbo/model/sparsified_gp.hpp>
// sub-models that discard points
struct PS : public zoo::P<20, false, 0> {
    struct model_sparse_gp {
        BO_PARAM(int, max_points, 3);
    };
};
MC_SUITE("sparse_sub_models", [] {
    typedef limbo::model::MultiGP<PS, limbo::model::SparsifiedGP, limbo::kernel::Exp<PS>, limbo::mean::Constant<PS>> G;
    int n = 1 + mc::choose(6), batch = mc::choose(2), flavour = mc::choose(4), dout = 1 + mc::choose(3);
    mc::shard();
    G g;
    MultiSys<PS, zoo::KExp, zoo::MConst> r(2, dout, 0);
    r.dims(2, dout);
    for (int i = 0; i < n; ++i) {
        r.X.push_back(zoo::point(i, 2));
        r.Y.push_back(zoo::obs(i, dout));
    }
    mc::note(mc::fmt("%d points, batch %d, cap 3, refresh %d", n, batch, flavour));
    if (batch)
        g.compute(r.X, r.Y);
    else
        for (int i = 0; i < n; ++i)
            g.add_sample(r.X[i], r.Y[i]);
    mc::op(n);
    mc::check((int)g.samples().size() == std::min(n, 3), "sparse-size");
    for (auto& s : g.gp_models())
        mc::check(s.samples() == g.samples(), "sparse-sub-models-disagree");
    if (n <= 3) {
        g.recompute(flavour & 1, flavour & 2);
        r.gp = decltype(r.gp)();
        r.prepare();
    }
    else {
        // which pairs were kept
        std::vector<VectorXd> X, Y;
        for (auto& x : g.samples())
            for (int i = 0; i < n; ++i)
                if (r.X[i] == x) {
                    X.push_back(x);
                    Y.push_back(r.Y[i]);
                }
        auto X0 = r.X, Y0 = r.Y;
        r.X = X;
        r.Y = Y;
        r.prepare();
    }
    for (auto& v : std::vector<VectorXd>{zoo::point(0, 2), zoo::point(5, 2), zoo::point(7, 2)}) {
        VectorXd m = g.mu(v), sg = g.sigma(v);
        for (int i = 0; i < dout; ++i) {
            mc::check(zoo::close(m[i], r.sub[i].mu(v)[0] + r.mean.value(r.dm)[i], 1e-4), "sparse-mu");
            mc::check(zoo::close(sg[i], r.sub[i].var(v), 1e-5), "sparse-sigma");
        }
    }
    if (n > 3) {
        std::string s = mc::forked([&] { g.recompute(flavour & 1, flavour & 2); });
        mc::check(s.empty() && g.observations().size() == g.samples().size(), "multi-sparse-after-pruning", "refreshing or inspecting a multi-output model after its sparsified sub-models have discarded points: " + s);
    }
});
#endif
MC_MAIN
