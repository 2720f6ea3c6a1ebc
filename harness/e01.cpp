// E01: the Pareto set is exactly the set of non-dominated points, with the data attached to them.
#include "mc.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/tools/pareto.hpp>
using Eigen::VectorXd;
typedef std::vector<VectorXd> Vs;
static bool dominates(const VectorXd& a, const VectorXd& b)
{
    bool strict = false;
    for (int i = 0; i < a.size(); ++i) {
        if (a[i] < b[i])
            return false;
        strict = strict || a[i] > b[i];
    }
    return strict;
}
// objectives in the place K of a tuple, an identifier in the others
template <int K>
struct Shape;
template <>
struct Shape<0> {
    typedef std::tuple<VectorXd, double> type;
    static type make(const VectorXd& y, int id) { return type(y, id); }
    static int id(const type& t) { return (int)std::get<1>(t); }
};
template <>
struct Shape<1> {
    typedef std::tuple<VectorXd, VectorXd, VectorXd> type;
    static type make(const VectorXd& y, int id) { return type(VectorXd::Constant(2, id), y, VectorXd::Constant(1, id + 1000)); }
    static int id(const type& t)
    {
        int i = (int)std::get<0>(t)[0];
        return std::get<0>(t).size() == 2 && std::get<0>(t)[1] == i && std::get<2>(t).size() == 1 && std::get<2>(t)[0] == i + 1000 ? i : -1;
    }
};
template <>
struct Shape<2> {
    typedef std::tuple<int, int, VectorXd> type;
    static type make(const VectorXd& y, int id) { return type(id, -id, y); }
    static int id(const type& t) { return std::get<0>(t) == -std::get<1>(t) ? std::get<0>(t) : -1; }
};
template <int K>
static void verify(const Vs& Y)
{
    typedef typename Shape<K>::type P;
    std::vector<P> v;
    for (size_t i = 0; i < Y.size(); ++i)
        v.push_back(Shape<K>::make(Y[i], i));
    const std::vector<P> in = v;
    std::vector<P> r = pareto::pareto_set<K>(in);
    std::vector<int> got(Y.size());
    for (auto& t : r) {
        int id = Shape<K>::id(t);
        mc::check(id >= 0 && id < (int)Y.size() && std::get<K>(t) == Y[id], "attached", "a returned point carries the data of another");
        got[id]++;
    }
    for (size_t i = 0; i < Y.size(); ++i) {
        bool dom = false;
        for (auto& y : Y)
            dom = dom || dominates(y, Y[i]);
        mc::check(got[i] == !dom, "pareto", mc::fmt("point %zu of %zu is %sdominated and returned %d times", i, Y.size(), dom ? "" : "not ", got[i]));
    }
    // again: nothing changes
    std::vector<P> r2 = pareto::pareto_set<K>(r);
    std::vector<int> again(Y.size());
    for (auto& t : r2)
        again[Shape<K>::id(t)]++;
    mc::check(again == got, "fixpoint");
    mc::op(2);
}
static const double INF = std::numeric_limits<double>::infinity();
template <int D, int V>
static void lists(int maxn, const std::vector<double>& val, int shard_at)
{
    int n = 1 + mc::choose(maxn), kind = mc::choose(3);
    Vs Y;
    for (int i = 0; i < n; ++i) {
        VectorXd y(D);
        for (int k = 0; k < D; ++k)
            y[k] = val[mc::choose(V)];
        Y.push_back(y);
        if (i == 0 && (n > 1 || shard_at))
            mc::shard();
    }
    if (kind == 0)
        verify<0>(Y);
    else if (kind == 1)
        verify<1>(Y);
    else
        verify<2>(Y);
    mc::state(mc::fmt("%d %d %llx", D, n, [&] { uint64_t h = 1; for (auto& y : Y) h = mc::hash_bytes(y.data(), y.size() * 8, h); return (unsigned long long)h; }()));
}
MC_SUITE("two_wide", [] { lists<2, 4>(mc::tier(4, 5), {0, 1, -2.5, 1.0000000000000002}, 1); }, 16);
MC_SUITE("two_long", [] { lists<2, 2>(mc::tier(7, 9), {-1, 1}, 1); }, 16);
MC_SUITE("two_mid", [] { lists<2, 3>(mc::tier(5, 6), {-1e300, 0, 1e-300}, 1); }, 16);
MC_SUITE("two_inf", [] { lists<2, 4>(4, {-INF, -1e308, 0., INF}, 1); }, 16);
MC_SUITE("three", [] { lists<3, 3>(mc::tier(3, 4), {-1, 0, 2}, 1); }, 16);
MC_SUITE("three_long", [] { lists<3, 2>(mc::tier(5, 6), {0, 1}, 1); }, 16);
MC_SUITE("four", [] { lists<4, 2>(mc::tier(4, 5), {0, 1}, 1); }, 16);
MC_SUITE("five", [] { lists<5, 2>(mc::tier(3, 4), {0, 1}, 1); }, 16);

// larger sets built by rules: a staircase of m steps, each followed by points below it, copies, and a final
// point beating a stretch of it, in forward, backward and interleaved order
MC_SUITE(
    "large", [] {
        int d = 2 + mc::choose(3), m = 1 + mc::choose(mc::tier(24, 60)), below = mc::choose(3), copies = mc::choose(3);
        mc::shard();
        int lo = mc::choose(std::min(m, 6)) * m / 6, hi = lo + mc::choose(3) * m / 6, order = mc::choose(3);
        Vs base;
        auto at = [&](double x) {
            VectorXd y(d);
            y[0] = x;
            y[1] = m - x;
            for (int k = 2; k < d; ++k)
                y[k] = 0.5 * k;
            return y;
        };
        for (int i = 0; i < m; ++i) {
            base.push_back(at(i));
            for (int b = 0; b < below; ++b) {
                VectorXd y = at(i);
                y[b % d] -= 0.25;
                base.push_back(y);
            }
            for (int c = 0; c < copies; ++c)
                if (i % 3 == c)
                    base.push_back(at(i));
        }
        if (hi > lo) {
            VectorXd y = at(hi);
            y[1] = m - lo;
            base.push_back(y);
        }
        Vs Y;
        for (size_t i = 0; i < base.size(); ++i)
            Y.push_back(order == 0 ? base[i] : order == 1 ? base[base.size() - 1 - i] : base[(i * 7 + 3) % base.size()]);
        verify<1>(Y);
        mc::state(mc::fmt("L%d %d %d %d %d %d %d", d, m, below, copies, lo, hi, order));
    },
    16);

// all orders of one set
MC_SUITE(
    "orders", [] {
        static const double P[4][6][3] = {
            {{0, 5, 0}, {1, 4, 0}, {2, 3, 0}, {3, 3, 0}, {1, 4, 0}, {0, 0, 0}},
            {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {1, 1, 1}, {1, 1, 0}, {0, 1, 1}},
            {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 1}, {0.5, 0.5, 0.5}, {-1, 2, 0}},
            {{3, 3, 3}, {3, 3, 2}, {3, 3, 3}, {2, 3, 3}, {3, 2, 3}, {3, 3, 4}}};
        int which = mc::choose(4), n = mc::tier(5, 6), d = 2 + mc::choose(2);
        std::vector<int> left;
        for (int i = 0; i < n; ++i)
            left.push_back(i);
        Vs Y;
        while (!left.empty()) {
            int k = mc::choose(left.size());
            Y.push_back(Eigen::Map<const VectorXd>(P[which][left[k]], d));
            left.erase(left.begin() + k);
        }
        verify<1>(Y);
        mc::state(mc::fmt("o%d %d", which, d));
    },
    1);
MC_MAIN
