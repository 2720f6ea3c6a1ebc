// O01: what the search optimisers evaluate and return, for every assignment of values.
#include "rng.hpp"
#include "zoo.hpp"
#include <limbo/opt/chained.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <set>
using Eigen::VectorXd;
using namespace limbo;
struct P {
    struct opt_gridsearch {
        VDYN(int, bins)
    };
    struct opt_parallelrepeater {
        VDYN(int, repeats)
        VDYN(double, epsilon)
    };
};
struct P2 { // nested repeaters have parameters of their own
    struct opt_parallelrepeater {
        VDYN(int, repeats)
        VDYN(double, epsilon)
    };
};
static const std::vector<double> VALUES = {0, 1, -1, -INFINITY, -1e300, 1e300};
// ---------------------------------------------------------------- grid search
typedef std::vector<int> Node;
static void grid(int dim, int bins, const std::vector<double>& values, bool all_values)
{
    P::opt_gridsearch::set_bins(bins);
    std::map<Node, double> seen;
    auto f = [&](const VectorXd& x, bool g) {
        mc::check(x.size() == dim, "dimension");
        mc::check(!g, "gradient-asked", "grid search needs no gradient");
        Node n(dim);
        for (int i = 0; i < dim; ++i) {
            n[i] = (int)std::lround(x[i] * bins);
            mc::check(std::abs(x[i] * bins - n[i]) < 1e-9 && n[i] >= 0 && n[i] <= bins, "not-a-node", mc::fmt("coordinate %.17g is not on the grid of %d bins", x[i], bins));
        }
        mc::op();
        auto it = seen.find(n);
        if (it == seen.end()) {
            double v = all_values ? values[mc::choose(values.size())] : values[seen.size() % values.size()];
            it = seen.insert({n, v}).first;
        }
        return opt::no_grad(it->second);
    };
    VectorXd init = VectorXd::Constant(dim, 0.37);
    VectorXd r = opt::GridSearch<P>()(f, init, true);
    size_t want = 1;
    for (int i = 0; i < dim; ++i)
        want *= bins + 1;
    mc::check(seen.size() == want, "nodes-missing", mc::fmt("%zu of %zu nodes evaluated (%d bins, %d dimensions)", seen.size(), want, bins, dim));
    mc::check(r.size() == dim, "result-dimension");
    Node n(dim);
    for (int i = 0; i < dim; ++i) {
        mc::check(r[i] == r[i] && std::abs(r[i]) < 10, "result-is-not-a-node", zoo::str(r));
        n[i] = (int)std::lround(r[i] * bins);
        mc::check(std::abs(r[i] * bins - n[i]) < 1e-9, "result-is-not-a-node", zoo::str(r));
    }
    mc::check(seen.count(n) == 1, "result-not-evaluated", zoo::str(r));
    double best = -INFINITY;
    uint64_t h = dim * 100 + bins;
    for (auto& s : seen) {
        best = std::max(best, s.second);
        h = mc::hash_bytes(&s.second, 8, h);
    }
    mc::state(h);
    mc::check(seen[n] == best, "result-not-maximal", mc::fmt("%g returned, %g evaluated", seen[n], best));
}
MC_SUITE("grid_1d", [] {
    int b = 1 + mc::choose(mc::tier(5, 6));
    mc::shard();
    grid(1, b, VALUES, true);
}, 8);
MC_SUITE("grid_2d_1", [] {
    mc::shard();
    grid(2, 1, VALUES, true);
});
MC_SUITE("grid_2d_2", [] { grid(2, 2, {0, 1, -INFINITY}, true); });
MC_SUITE("grid_2d_2neg", [] { grid(2, 2, {-2, -3, -1e300}, true); });
MC_SUITE("grid_3d_1", [] { grid(3, 1, {0, 1, -1, -INFINITY}, true); });
MC_SUITE("grid_4d_1", [] {
    if (!mc::thorough())
        grid(4, 1, {-1, -INFINITY}, true);
    else
        grid(4, 1, {0, -1, -INFINITY}, true);
});
// every number of bins, one maximal node anywhere
MC_SUITE("grid_bins", [] {
    int dim = 1 + mc::choose(3), mx = dim == 1 ? mc::tier(128, 400) : (dim == 2 ? 16 : 6), b = 1 + mc::choose(mx);
    mc::shard();
    std::vector<double> v(dim == 1 ? b + 1 : (dim == 2 ? (b + 1) * (b + 1) : (b + 1) * (b + 1) * (b + 1)), -7);
    size_t step = std::max<size_t>(1, v.size() / 24), k = mc::choose(v.size() / step + 1);
    v[std::min(v.size() - 1, k * step)] = -5;
    grid(dim, b, v, false);
}, 16);
// ---------------------------------------------------------------- restarts and chains
// an inner optimiser whose answer is explored
struct Call {
    int id;
    VectorXd init, result;
    bool bounded;
};
static std::vector<Call> CALLS;
static std::map<double, double> VALUE; // of the points returned (1st coordinate identifies the point)
static int letters = 5, points = 0;
template <int ID>
struct Scripted {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        mc::op();
        VectorXd r = init;
        // either a new point or the start itself
        points++;
        r[0] = points / 64.0;
        VALUE[r[0]] = VALUES[mc::choose(letters)];
        CALLS.push_back({ID, init, r, bounded});
        return r;
    }
};
static opt::eval_t objective(const VectorXd& x, bool g)
{
    mc::check(!g, "gradient-asked");
    auto it = VALUE.find(x[0]);
    return opt::no_grad(it == VALUE.end() ? -12345 : it->second);
}
static void clear()
{
    CALLS.clear();
    VALUE.clear();
    points = 0;
}
static const double INIT[][2] = {{0.5, 0.5}, {0, 1}, {1, 0}, {0.995, 0.3}};
static VectorXd start(int k, int dim)
{
    VectorXd v(dim);
    for (int i = 0; i < dim; ++i)
        v[i] = INIT[k][i % 2];
    return v;
}
MC_SUITE("repeater", [] {
    static const double EPS[] = {1e-2, 0.7};
    int n = 1 + mc::choose(mc::tier(4, 5)), k = mc::choose(4), dim = 1 + mc::choose(2);
    bool bounded = mc::flip();
    double eps = EPS[mc::choose(2)];
    mc::shard();
    letters = 5;
    clear();
    rng::reset(n <= 2 ? n * dim : 1, 2);
    P::opt_parallelrepeater::set_repeats(n);
    P::opt_parallelrepeater::set_epsilon(eps);
    VectorXd init = start(k, dim);
    VectorXd r = opt::ParallelRepeater<P, Scripted<0>>()(objective, init, bounded);
    mc::check((int)CALLS.size() == n, "number-of-restarts", mc::fmt("%zu restarts, %d configured", CALLS.size(), n));
    double best = -INFINITY;
    bool one = false;
    for (auto& c : CALLS) {
        mc::check(c.bounded == bounded, "bounded-flag");
        mc::check(c.init.size() == dim && (c.init - init).cwiseAbs().maxCoeff() <= eps * (1 + 1e-12), "restart-start", "restart from " + zoo::str(c.init));
        if (bounded)
            mc::check(c.init.minCoeff() >= 0 && c.init.maxCoeff() <= 1, "restart-outside-the-cube", "restart from " + zoo::str(c.init));
        best = std::max(best, VALUE[c.result[0]]);
    }
    for (auto& c : CALLS)
        one |= c.result == r && VALUE[c.result[0]] == best;
    mc::check(one || (best == -INFINITY && r == init), "best-restart", mc::fmt("returned %s, the best restart has value %g", zoo::str(r).c_str(), best));
    mc::state(mc::fmt("r%d %g", n, best));
}, 16);
MC_SUITE("repeater_draws", [] { // all draws over five letters
    int n = 1 + mc::choose(3), k = mc::choose(4);
    mc::shard();
    letters = 1;
    clear();
    rng::reset(n * 2, 5);
    P::opt_parallelrepeater::set_repeats(n);
    P::opt_parallelrepeater::set_epsilon(0.3);
    VectorXd init = start(k, 2);
    opt::ParallelRepeater<P, Scripted<0>>()(objective, init, true);
    for (auto& c : CALLS)
        mc::check((c.init - init).cwiseAbs().maxCoeff() <= 0.3 + 1e-12 && c.init.minCoeff() >= 0 && c.init.maxCoeff() <= 1, "restart-start", "restart from " + zoo::str(c.init));
}, 8);
template <typename O>
void chain(int n, bool with_repeats = false)
{
    int k = mc::choose(4), dim = 1 + mc::choose(2);
    bool bounded = mc::flip();
    mc::shard();
    letters = 3;
    clear();
    rng::reset(0);
    VectorXd init = start(k, dim);
    VectorXd r = O()(objective, init, bounded);
    mc::check((int)CALLS.size() == n, "chain-length", mc::fmt("%zu optimisers run, %d chained", CALLS.size(), n));
    for (int i = 0; i < n; ++i) {
        mc::check(CALLS[i].id == i, "chain-order", mc::fmt("optimiser %d run at position %d", CALLS[i].id, i));
        mc::check(CALLS[i].bounded == bounded, "bounded-flag");
        mc::check(CALLS[i].init == (i ? CALLS[i - 1].result : init), "chain-start", mc::fmt("optimiser %d does not start from the previous result", i));
    }
    mc::check(r == CALLS.back().result, "chain-result", "not the result of the last optimiser");
    mc::state(mc::fmt("c%d %g", n, r[0]));
}
typedef opt::Chained<P, Scripted<0>> C1;
typedef opt::Chained<P, Scripted<0>, Scripted<1>> C2;
typedef opt::Chained<P, Scripted<0>, Scripted<1>, Scripted<2>> C3;
typedef opt::Chained<P, Scripted<0>, Scripted<1>, Scripted<2>, Scripted<3>> C4;
typedef opt::Chained<P, opt::Chained<P, Scripted<0>, Scripted<1>>, Scripted<2>> CC;
MC_SUITE("chain_1", [] { chain<C1>(1); });
MC_SUITE("chain_2", [] { chain<C2>(2); });
MC_SUITE("chain_3", [] { chain<C3>(3); });
MC_SUITE("chain_4", [] { chain<C4>(4); });
MC_SUITE("chain_nested", [] { chain<CC>(3); });
// a repeater of chains: every restart runs the whole chain, the best end is returned
MC_SUITE("repeated_chain", [] {
    int n = 1 + mc::choose(3);
    mc::shard();
    letters = 4;
    clear();
    rng::reset(0);
    P::opt_parallelrepeater::set_repeats(n);
    P::opt_parallelrepeater::set_epsilon(0.1);
    VectorXd init = start(0, 2);
    VectorXd r = opt::ParallelRepeater<P, C2>()(objective, init, true);
    mc::check((int)CALLS.size() == 2 * n, "number-of-restarts");
    double best = -INFINITY;
    bool one = false;
    for (int i = 0; i < n; ++i) {
        mc::check(CALLS[2 * i].id == 0 && CALLS[2 * i + 1].id == 1 && CALLS[2 * i + 1].init == CALLS[2 * i].result, "chain-order");
        best = std::max(best, VALUE[CALLS[2 * i + 1].result[0]]);
    }
    for (int i = 0; i < n; ++i)
        one |= CALLS[2 * i + 1].result == r && VALUE[r[0]] == best;
    mc::check(one || (best == -INFINITY && r == init), "best-restart", mc::fmt("value %g returned, best %g", VALUE[r[0]], best));
}, 3);
// a repeater of repeaters: the best of all
MC_SUITE("repeated_repeater", [] {
    int n = 1 + mc::choose(3), m = 1 + mc::choose(2);
    mc::shard();
    letters = 5;
    clear();
    rng::reset(0);
    P::opt_parallelrepeater::set_repeats(n);
    P::opt_parallelrepeater::set_epsilon(0.1);
    P2::opt_parallelrepeater::set_repeats(m);
    P2::opt_parallelrepeater::set_epsilon(0.01);
    VectorXd init = start(0, 1);
    VectorXd r = opt::ParallelRepeater<P, opt::ParallelRepeater<P2, Scripted<0>>>()(objective, init, true);
    mc::check((int)CALLS.size() == n * m, "number-of-restarts");
    double best = -INFINITY;
    bool one = false;
    for (auto& c : CALLS)
        best = std::max(best, VALUE[c.result[0]]);
    for (auto& c : CALLS)
        one |= c.result == r && VALUE[r[0]] == best;
    // a start that was never evaluated stands for "nothing better than -inf"
    mc::check(one || best == -INFINITY || best < -12345, "best-restart", mc::fmt("value %g returned, best %g", VALUE[r[0]], best));
}, 6);
MC_SUITE("random_point", [] {
    int dim = 1 + mc::choose(4);
    mc::shard();
    rng::reset(dim, 5);
    VectorXd x = opt::RandomPoint<P>()(objective, VectorXd::Constant(dim, 0.3), true);
    mc::op();
    mc::check(x.size() == dim && x.minCoeff() >= 0 && x.maxCoeff() <= 1, "random-point", zoo::str(x));
    mc::state(mc::hash_bytes(x.data(), 8 * dim));
}, 4);
MC_MAIN
