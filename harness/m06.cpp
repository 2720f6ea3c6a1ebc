// M06: kernels are the documented covariance functions with exact gradients.
#include "mc.hpp"
#include "zoo.hpp"
#include <Eigen/Eigenvalues>
using Eigen::VectorXd;

static VectorXd gp_(int i, int d)
{
    static const double b[6] = {0.0, 0.3, 1.0, -2.5, 0.3000001, 100.0};
    VectorXd v(d);
    for (int k = 0; k < d; ++k)
        v[k] = b[(i + (k ? (i * k) % 6 + k : 0)) % 6] * (k % 2 ? -0.7 : 1.0);
    return v;
}
static VectorXd hp(int j, const ref::Kernel& k)
{
    static const double b[7] = {0.0, -0.7, 0.9, 1.6, -2.0, 0.25, -0.1};
    VectorXd v(k.size());
    for (size_t i = 0; i < k.size(); ++i)
        v[i] = b[(j * 3 + i * (1 + j)) % 7] * (j == 5 ? 2.5 : 1.0);
    return v;
}
template <typename Kern>
static void value_check(const Kern& kf, const ref::Kernel& r, const VectorXd& a, const VectorXd& b)
{
    ref::LD e = r.value(a, b), nz = r.noise();
    double s = 1 + (double)r.sf2(r.hp);
    double v = kf(a, b);
    mc::check(zoo::close(v, e, 1e-9 * s), "value", mc::fmt("k(%s,%s)=%.15g expected %.15Lg", zoo::str(a).c_str(), zoo::str(b).c_str(), v, e));
    mc::check(zoo::close(kf(b, a), e, 1e-9 * s), "symmetry");
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            double w = kf(a, b, i, j);
            ref::LD ew = e + (i == j ? nz : 0);
            mc::check(w >= (double)ew - 1e-9 * s && w <= (double)ew + 1e-9 * s + (i == j ? 1e-6 : 0), i == j ? "diagonal-noise" : "off-diagonal-noise", mc::fmt("i=%d j=%d: %.15g expected %.15Lg", i, j, w, ew));
        }
    mc::check(zoo::close(kf(a, a), r.value(a, a), 1e-9 * s) && zoo::close(kf(a, a), r.sf2(r.hp), 1e-9 * s), "signal-variance");
    mc::check(zoo::close(kf.noise(), nz, 1e-9 * (1 + (double)nz)), "noise");
}
template <typename Kern>
static void grad_check(const Kern& kf, const ref::Kernel& r, const VectorXd& a, const VectorXd& b, int i, int j)
{
    VectorXd g = kf.grad(a, b, i, j);
    mc::check(g.size() == (int)r.size(), "gradient-size");
    ref::V e = ref::GP::diff(r.hp, [&](const ref::V& h) { return r.value(a, b, h) + (i == j ? r.noise(h) : 0); });
    double s = 1 + (double)r.sf2(r.hp);
    for (size_t k = 0; k < e.size(); ++k)
        s = std::max(s, std::fabs(e[k]));
    for (size_t k = 0; k < e.size(); ++k)
        mc::check(std::fabs(g[k] - e[k]) <= 1e-6 * s, "gradient", mc::fmt("d k(%s,%s)/d p[%zu] = %.12g expected %.12g (i=%d,j=%d)", zoo::str(a).c_str(), zoo::str(b).c_str(), k, g[k], e[k], i, j));
}
template <typename Kern>
static void set_check(Kern& kf, ref::Kernel& r, const VectorXd& p)
{
    kf.set_h_params(p);
    r.hp = zoo::stdv(p);
    mc::check(kf.h_params_size() == r.size(), "h_params_size");
    VectorXd q = kf.h_params();
    mc::check(q.size() == p.size(), "h_params-size");
    for (int i = 0; i < p.size(); ++i)
        mc::check(std::fabs(q[i] - p[i]) <= 1e-12 * (1 + std::fabs(p[i])), "h_params-roundtrip", mc::fmt("[%d] %.17g set %.17g", i, q[i], p[i]));
}
template <typename Pm, template <typename> class KT>
void values()
{
    int d = 1 + mc::choose(4);
    int j = mc::choose(8); // 7: initial values
    mc::shard();
    typename KT<Pm>::type kf(d);
    ref::Kernel r = KT<Pm>::make();
    r.reset(d);
    mc::check(kf.h_params_size() == r.size(), "h_params_size");
    VectorXd q = kf.h_params();
    for (size_t i = 0; i < r.size(); ++i)
        mc::check(std::fabs(q[i] - r.hp[i]) <= 1e-12, "initial-params", mc::fmt("[%zu] %.17g expected %.17g", i, q[i], r.hp[i]));
    if (j < 7)
        set_check(kf, r, hp(j, r));
    int a = mc::choose(6), b = mc::choose(6);
    VectorXd x = gp_(a, d), y = gp_(b, d);
    mc::note(mc::fmt("d=%d params %d x=%s y=%s", d, j, zoo::str(x).c_str(), zoo::str(y).c_str()));
    mc::state(mc::fmt("%d %d %d %d", d, j, a, b));
    value_check(kf, r, x, y);
    static const int I[5][2] = {{-1, -2}, {0, 0}, {3, 3}, {1, 2}, {2, 1}};
    for (auto& ij : I)
        grad_check(kf, r, x, y, ij[0], ij[1]);
    mc::op(6);
}
// parameter-setting histories: only the last setting matters; copies are independent
template <typename Pm, template <typename> class KT>
void params(int depth)
{
    int d = 1 + mc::choose(4);
    mc::shard();
    typename KT<Pm>::type kf(d);
    ref::Kernel r = KT<Pm>::make();
    r.reset(d);
    VectorXd x = gp_(1, d), y = gp_(2, d);
    for (int s = 0; s < depth; ++s) {
        int o = mc::choose(8);
        mc::note(mc::fmt("op%d", o));
        mc::op();
        if (o < 6)
            set_check(kf, r, hp(o, r));
        else if (o == 6) { // evaluations must not disturb anything
            value_check(kf, r, x, y);
            grad_check(kf, r, x, y, 0, 0);
        }
        else {
            typename KT<Pm>::type c(kf);
            kf.set_h_params(hp(3, r));
            kf = c;
        }
        if (mc::fresh()) {
            value_check(kf, r, x, y);
            value_check(kf, r, x, x);
            grad_check(kf, r, x, y, 1, 1);
            std::string st = std::to_string(d);
            for (double v : r.hp)
                st += mc::fmt(" %g", v);
            mc::state(st);
        }
    }
}
// positive definite on every set of distinct points
template <typename Pm, template <typename> class KT>
void pd()
{
    int d = 1 + mc::choose(4), j = mc::choose(8);
    mc::shard();
    int mask = 1 + mc::choose(127);
    typename KT<Pm>::type kf(d);
    ref::Kernel r = KT<Pm>::make();
    r.reset(d);
    if (j < 7)
        set_check(kf, r, hp(j, r));
    std::vector<VectorXd> X;
    for (int i = 0; i < 7; ++i)
        if (mask >> i & 1)
            X.push_back(zoo::point(i, d));
    int n = X.size();
    Eigen::MatrixXd K(n, n);
    for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b)
            K(a, b) = kf(X[a], X[b], a, b);
    mc::note(mc::fmt("d=%d params %d subset %d", d, j, mask));
    mc::op(n * n);
    mc::state(mc::fmt("pd %d %d %d", d, j, mask));
    mc::check((K - K.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + K.cwiseAbs().maxCoeff()), "matrix-symmetry");
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(K);
    mc::check(es.eigenvalues().minCoeff() > 0.5 * (double)r.noise(), "positive-definite", mc::fmt("smallest eigenvalue %g", es.eigenvalues().minCoeff()));
}
#define S(NAME, PM, K)                                                              \
    MC_SUITE(NAME "_values", [] { values<zoo::PM, zoo::K>(); }, 8);                 \
    MC_SUITE(NAME "_params", [] { params<zoo::PM, zoo::K>(mc::tier(4, 5)); }, 4);   \
    MC_SUITE(NAME "_pd", [] { pd<zoo::PM, zoo::K>(); }, 4)
S("exp", P0, KExp);
S("expn", PN, KExp);
S("m52", P0, KM52);
S("m52n", PN, KM52);
S("m32", P0, KM32);
S("m32n", PN, KM32);
S("ard", P0, KARD);
S("ardn", PN, KARD);
S("ardk1", PK1, KARD);
S("ardk2n", PK2N, KARD);
MC_MAIN
