// E03: expected hypervolume improvement against its defining integral (closed form in long double).
#include "mc.hpp"
#include <algorithm>
#include <deque>
#include <limbo/limbo.hpp>
#include <ehvi/ehvi_calculations.h>
#include <ehvi/ehvi_sliceupdate.h>
#include <ehvi/ehvi_multi.h>
#include <limbo/experimental/acqui/ehvi.hpp>
using Eigen::VectorXd;
typedef long double LD;
struct P3 {
    double f[3];
};
typedef std::vector<P3> Front;
// E[(y - c)+]
static LD ei(LD c, LD mu, LD s)
{
    LD z = (mu - c) / s;
    return s * std::exp(-z * z / 2) / std::sqrt(2 * acosl(-1.0L)) + (mu - c) * 0.5L * erfcl(-z / sqrtl(2.0L));
}
static LD strip(LD a, LD b, bool last, LD mu, LD s) { return ei(a, mu, s) - (last ? 0 : ei(b, mu, s)); }
// integral over u > r0 of P(y0 > u) E[(y1 - h(u))+], h the height of the staircase above u
static LD ref2(const Front& p, const double* r, const double* mu, const double* s)
{
    std::vector<double> cut = {r[0]};
    for (auto& q : p)
        if (q.f[0] > r[0])
            cut.push_back(q.f[0]);
    std::sort(cut.begin(), cut.end());
    LD total = 0;
    for (size_t i = 0; i < cut.size(); ++i) {
        bool last = i + 1 == cut.size();
        if (!last && cut[i + 1] == cut[i])
            continue;
        double h = r[1];
        for (auto& q : p)
            if (q.f[0] > cut[i])
                h = std::max(h, q.f[1]);
        total += strip(cut[i], last ? 0 : cut[i + 1], last, mu[0], s[0]) * ei(h, mu[1], s[1]);
    }
    return total;
}
static LD ref3(const Front& p, const double* r, const double* mu, const double* s)
{
    std::vector<double> cut = {r[2]};
    for (auto& q : p)
        if (q.f[2] > r[2])
            cut.push_back(q.f[2]);
    std::sort(cut.begin(), cut.end());
    LD total = 0;
    for (size_t i = 0; i < cut.size(); ++i) {
        bool last = i + 1 == cut.size();
        if (!last && cut[i + 1] == cut[i])
            continue;
        Front above;
        for (auto& q : p)
            if (q.f[2] > cut[i])
                above.push_back(q);
        total += strip(cut[i], last ? 0 : cut[i + 1], last, mu[2], s[2]) * ref2(above, r, mu, s);
    }
    return total;
}
struct Pop {
    std::vector<individual> store;
    std::deque<individual*> d;
    Pop(const Front& p) : store(p.size())
    {
        for (size_t i = 0; i < p.size(); ++i) {
            std::copy(p[i].f, p[i].f + 3, store[i].f);
            d.push_back(&store[i]);
        }
    }
};
static bool nondom(const Front& p, int d)
{
    for (size_t i = 0; i < p.size(); ++i)
        for (size_t j = 0; j < p.size(); ++j)
            if (i != j) {
                bool ge = true, gt = false;
                for (int k = 0; k < d; ++k) {
                    ge = ge && p[i].f[k] >= p[j].f[k];
                    gt = gt || p[i].f[k] > p[j].f[k];
                }
                if (ge && gt)
                    return false;
            }
    return true;
}
static std::string show(const Front& p, const double* mu, const double* s)
{
    std::string t = "front";
    for (auto& q : p)
        t += mc::fmt(" (%g %g %g)", q.f[0], q.f[1], q.f[2]);
    return t + mc::fmt(" mean (%g %g %g) deviation (%g %g %g)", mu[0], mu[1], mu[2], s[0], s[1], s[2]);
}
static void close(double v, LD e, double scale, const char* key, const std::string& what)
{
    mc::check(v == v && v >= 0 && std::fabs(v - (double)e) <= 1e-7 * std::fabs((double)e) + 1e-9 * scale, key, mc::fmt("%.12g instead of %.12Lg: ", v, e) + what);
}
static uint64_t key(const Front& p, int d)
{
    uint64_t h = d;
    for (auto& q : p)
        h = mc::hash_bytes(q.f, sizeof q.f, h);
    return h;
}
static const std::vector<double> MU = {-1, 0, 1.5, 4}, SD = {0.05, 1, 6};
// enumerated lists of points over a grid; only mutually non-dominated ones are fronts
static Front make_front(int d, int maxn, const std::vector<double>& val)
{
    int n = mc::choose(maxn + 1);
    Front p;
    for (int i = 0; i < n; ++i) {
        P3 q = {{0, 0, 0}};
        for (int k = 0; k < d; ++k)
            q.f[k] = mc::pick(val);
        p.push_back(q);
        if (!nondom(p, d))
            throw mc::Skip();
        if (i == 0)
            mc::shard();
    }
    if (n == 0)
        mc::shard();
    return p;
}
static void two(int maxn, const std::vector<double>& val, double r0, double r1)
{
    Front p = make_front(2, maxn, val);
    double r[3] = {r0, r1, 0};
    Pop pop(p);
    for (double m0 : MU)
        for (double m1 : MU)
            for (double s0 : SD)
                for (double s1 : SD) {
                    double mu[3] = {m0, m1, 0}, s[3] = {s0, s1, 0};
                    double v = ehvi2d(pop.d, r, mu, s);
                    mc::op();
                    double scale = (s0 + std::fabs(m0 - r0)) * (s1 + std::fabs(m1 - r1));
                    close(v, ref2(p, r, mu, s), scale, "ehvi2d", show(p, mu, s));
                }
    mc::state(key(p, 2));
}
// the reference point is dominated by every point of the front
MC_SUITE("two", [] { two(mc::tier(5, 6), {0, 1, 2, 3.5}, -1, -0.5); }, 16);
MC_SUITE("two_large", [] { two(mc::tier(6, 7), {-8, -3, 1}, -11, -11); }, 16);
MC_SUITE(
    "two_long", [] {
        int m = 1 + mc::choose(mc::tier(12, 40)), order = mc::choose(4), dup = mc::choose(2);
        mc::shard();
        Front p;
        for (int i = 0; i < m; ++i) {
            int k = order == 0 ? i : order == 1 ? m - 1 - i : (i * (order == 2 ? 1 : 2) + m / 2) % m;
            if (order == 3 && m % 2 == 0)
                k = (i + m / 3) % m;
            P3 q = {{k * 0.5 - 1, (m - k) * 0.25, 0}};
            p.push_back(q);
            if (dup && i % 2)
                p.push_back(q);
        }
        Pop pop(p);
        double r[3] = {-2, -1, 0};
        for (double m0 : MU)
            for (double m1 : MU)
                for (double sd : SD) {
                    double mu[3] = {m0, m1, 0}, s[3] = {sd, 1, 0};
                    close(ehvi2d(pop.d, r, mu, s), ref2(p, r, mu, s), (sd + std::fabs(m0) + 2) * (2 + std::fabs(m1)), "ehvi2d", show(p, mu, s));
                    mc::op();
                }
        mc::state(key(p, 2));
    },
    16);
static void three(int maxn, const std::vector<double>& val, double r0)
{
    Front p = make_front(3, maxn, val);
    for (size_t i = 0; i < p.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            if (std::equal(p[i].f, p[i].f + 3, p[j].f))
                throw mc::Skip(); // copies are removed before
    double r[3] = {r0, r0 - 0.5, r0 + 0.25};
    Pop pop(p);
    std::vector<mus> pd;
    std::vector<LD> expect;
    std::vector<double> scales;
    for (int c = 0; c < 12; ++c) {
        mus m;
        double scale = 1;
        for (int k = 0; k < 3; ++k) {
            m.mu[k] = MU[(c + k * (1 + c / 4)) % 4];
            m.s[k] = SD[(c / 3 + k * (c % 3)) % 3];
            scale *= m.s[k] + std::fabs(m.mu[k] - r[k]);
        }
        pd.push_back(m);
        expect.push_back(ref3(p, r, m.mu, m.s));
        scales.push_back(scale);
    }
    std::vector<mus*> pdf;
    for (auto& m : pd)
        pdf.push_back(&m);
    std::vector<double> m5 = ehvi3d_5term(pop.d, r, pdf), ms = ehvi3d_sliceupdate(pop.d, r, pdf);
    mc::check(m5.size() == pd.size() && ms.size() == pd.size(), "ehvi3d-multi");
    for (size_t c = 0; c < pd.size(); ++c) {
        double *mu = pd[c].mu, *s = pd[c].s;
        std::string what = show(p, mu, s);
        close(ehvi3d_2term(pop.d, r, mu, s), expect[c], scales[c], "ehvi3d_2term", what);
        close(ehvi3d_5term(pop.d, r, mu, s), expect[c], scales[c], "ehvi3d_5term", what);
        close(ehvi3d_8term(pop.d, r, mu, s), expect[c], scales[c], "ehvi3d_8term", what);
        close(ehvi3d_sliceupdate(pop.d, r, mu, s), expect[c], scales[c], "ehvi3d_sliceupdate", what);
        close(m5[c], expect[c], scales[c], "ehvi3d_5term_multi", what);
        close(ms[c], expect[c], scales[c], "ehvi3d_sliceupdate_multi", what);
        mc::op(6);
    }
    mc::state(key(p, 3));
}
MC_SUITE("three", [] { three(mc::tier(4, 5), {0, 1, 2.5}, -1); }, 16);
MC_SUITE("three_distinct", [] {
    // all assignments of distinct values: the generic case
    int n = 1 + mc::choose(mc::tier(5, 6));
    Front p;
    std::vector<int> y, z;
    for (int i = 0; i < n; ++i) {
        y.push_back(i);
        z.push_back(i);
    }
    for (int i = 0; i < n; ++i) {
        int a = mc::choose(y.size()), b = mc::choose(z.size());
        P3 q = {{0.3 + i, 0.5 * y[a] + 0.1, 2. * z[b]}};
        y.erase(y.begin() + a);
        z.erase(z.begin() + b);
        p.push_back(q);
    }
    int rot = mc::choose(n);
    mc::shard();
    if (!nondom(p, 3))
        throw mc::Skip();
    std::rotate(p.begin(), p.begin() + rot, p.end());
    double r[3] = {-1, -0.5, -0.25};
    Pop pop(p);
    for (int c = 0; c < 6; ++c) {
        double mu[3], s[3], scale = 1;
        for (int k = 0; k < 3; ++k) {
            mu[k] = MU[(c + k) % 4];
            s[k] = SD[(c / 2 + k) % 3];
            scale *= s[k] + std::fabs(mu[k] - r[k]);
        }
        LD e = ref3(p, r, mu, s);
        std::string what = show(p, mu, s);
        close(ehvi3d_2term(pop.d, r, mu, s), e, scale, "ehvi3d_2term", what);
        close(ehvi3d_5term(pop.d, r, mu, s), e, scale, "ehvi3d_5term", what);
        close(ehvi3d_8term(pop.d, r, mu, s), e, scale, "ehvi3d_8term", what);
        close(ehvi3d_sliceupdate(pop.d, r, mu, s), e, scale, "ehvi3d_sliceupdate", what);
        mc::op(4);
    }
    mc::state(key(p, 3));
}, 16);

// --- the acquisition function: the models' means and standard deviations
struct Model {
    double m, v;
    VectorXd at;
    Model(int = 1, int = 1) {}
    Model(double m_, double v_) : m(m_), v(v_) {}
    VectorXd mu(const VectorXd& x) const { return VectorXd::Constant(1, m * x[0]); }
    double sigma(const VectorXd& x) const { return v * x[0]; }
    std::tuple<VectorXd, double> query(const VectorXd& x) const { return std::make_tuple(mu(x), sigma(x)); }
    int dim() const { return 1; }
    int dim_in() const { return 1; }
    int dim_out() const { return 1; }
};
struct Pm {
};
MC_SUITE("acquisition", [] {
    Front p = make_front(2, 3, {0, 1, 2.5});
    double r[3] = {-1, -0.5, 0};
    Pop pop(p);
    for (double m0 : MU)
        for (double m1 : MU)
            for (double v0 : {0.01, 0.5, 1., 9.})
                for (double v1 : {0.04, 2., 4.}) {
                    std::vector<Model> models = {Model(m0, v0), Model(m1, v1)};
                    limbo::acqui::Ehvi<Pm, Model> a(models, pop.d, Eigen::Vector3d(r[0], r[1], r[2]));
                    for (double x : {1., 0.3}) {
                        double mu[3] = {m0 * x, m1 * x, 0}, s[3] = {std::sqrt(v0 * x), std::sqrt(v1 * x), 0};
                        close(a(VectorXd::Constant(1, x)), ref2(p, r, mu, s), (s[0] + std::fabs(mu[0]) + 1) * (s[1] + std::fabs(mu[1]) + 1), "acquisition", show(p, mu, s));
                        mc::op();
                    }
                }
    mc::state(key(p, 9));
}, 8);
MC_MAIN
