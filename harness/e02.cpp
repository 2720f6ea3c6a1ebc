// E02: hypervolume against direct counting of the cells the points dominate.
#include "mc.hpp"
#include <algorithm>
#include <hv/hypervol.h>
#include <limbo/limbo.hpp>
#include <limbo/experimental/stat/hyper_volume.hpp>
using Eigen::VectorXd;
typedef std::vector<std::vector<double>> Pts;
// volume of the union of the boxes [0, p]
static long double volume(const Pts& p, int d)
{
    std::vector<std::vector<double>> cut(d);
    for (int k = 0; k < d; ++k) {
        cut[k].push_back(0);
        for (auto& q : p)
            if (q[k] > 0)
                cut[k].push_back(q[k]);
        std::sort(cut[k].begin(), cut[k].end());
        cut[k].erase(std::unique(cut[k].begin(), cut[k].end()), cut[k].end());
    }
    std::vector<size_t> idx(d, 0);
    long double total = 0;
    while (true) {
        bool inside = true;
        long double vol = 1;
        for (int k = 0; k < d && inside; ++k) {
            if (idx[k] + 1 >= cut[k].size())
                inside = false;
            else
                vol *= (long double)cut[k][idx[k] + 1] - cut[k][idx[k]];
        }
        if (inside)
            for (auto& q : p) {
                bool in = true;
                for (int k = 0; k < d; ++k)
                    in = in && q[k] >= cut[k][idx[k] + 1];
                if (in) {
                    total += vol;
                    break;
                }
            }
        int k = 0;
        while (k < d && ++idx[k] >= cut[k].size())
            idx[k++] = 0;
        if (k == d)
            break;
    }
    return total;
}
static bool dom(const std::vector<double>& a, const std::vector<double>& b)
{
    bool s = false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i] < b[i])
            return false;
        s = s || a[i] > b[i];
    }
    return s;
}
struct Front {
    std::vector<double*> p, all;
    Front(const Pts& pts)
    {
        for (auto& q : pts) {
            p.push_back(new double[q.size()]);
            std::copy(q.begin(), q.end(), p.back());
        }
        all = p;
    }
    ~Front()
    {
        for (auto q : all)
            delete[] q;
    }
};
static double compute(const Pts& pts, int d, bool filter)
{
    Front f(pts);
    int n = pts.size();
    if (filter) {
        n = FilterNondominatedSet(f.p.data(), n, d);
        auto perm = f.p, all = f.all;
        std::sort(perm.begin(), perm.end());
        std::sort(all.begin(), all.end());
        mc::check(perm == all, "filter", "the points are not a permutation of those given");
        std::vector<std::vector<double>> got, expect;
        mc::check(n >= 0 && n <= (int)pts.size(), "filter");
        for (int i = 0; i < n; ++i)
            got.push_back(std::vector<double>(f.p[i], f.p[i] + d));
        for (auto& a : pts) {
            bool in = true;
            for (auto& b : pts)
                in = in && !dom(b, a);
            if (in)
                expect.push_back(a);
        }
        std::sort(got.begin(), got.end());
        std::sort(expect.begin(), expect.end());
        mc::check(got == expect, "filter", mc::fmt("%zu points kept instead of %zu", got.size(), expect.size()));
    }
    return CalculateHypervolume(f.p.data(), n, d);
}
static void verify(const Pts& pts, int d)
{
    long double v = volume(pts, d), before = volume(Pts(pts.begin(), pts.end() - 1), d);
    double scale = (double)v;
    for (int filter = 0; filter < 2; ++filter) {
        double h = compute(pts, d, filter);
        mc::check(std::fabs(h - (double)v) <= 1e-10 * (1e-300 + scale), "hypervolume", mc::fmt("%.17g instead of %.17Lg (%zu points, %d objectives, filtered %d)", h, v, pts.size(), d, filter));
        mc::check(h >= (double)before * (1 - 1e-10), "monotone");
    }
    mc::op(2);
}
static std::string key(const Pts& p)
{
    uint64_t h = 1;
    for (auto& q : p)
        h = mc::hash_bytes(q.data(), q.size() * 8, h);
    return mc::fmt("%zu %llx", p.size(), (unsigned long long)h);
}
static void lists(int d, int maxn, const std::vector<double>& val)
{
    int n = 1 + mc::choose(maxn);
    Pts p;
    for (int i = 0; i < n; ++i) {
        std::vector<double> q(d);
        for (auto& x : q)
            x = mc::pick(val);
        p.push_back(q);
        if (i == 0)
            mc::shard();
    }
    verify(p, d);
    mc::state(key(p));
}
MC_SUITE("two", [] { lists(2, mc::tier(4, 5), {0, 0.5, 1.25, 3}); }, 16);
MC_SUITE("two_long", [] { lists(2, mc::tier(6, 7), {1, 2, 4}); }, 16);
MC_SUITE("two_scale", [] { lists(2, 4, {0, 1e-9, 1, 1e9}); }, 16);
MC_SUITE("three", [] { lists(3, mc::tier(4, 5), {0.5, 1.25, 3}); }, 16);
MC_SUITE("three_zero", [] { lists(3, 3, {0, 1, 2, 5}); }, 16);
MC_SUITE("three_long", [] { lists(3, mc::tier(6, 7), {1, 3}); }, 16);
MC_SUITE("four", [] { lists(4, mc::tier(4, 5), {1, 2.5}); }, 16);
MC_SUITE("four_wide", [] { lists(4, mc::tier(2, 3), {0.5, 1, 3}); }, 16);
MC_SUITE("five", [] { lists(5, mc::tier(3, 4), {1, 2}); }, 16);
// one objective more than the usual: staircases of every length in every cyclic order
MC_SUITE(
    "long", [] {
        int d = 2 + mc::choose(2), m = 1 + mc::choose(mc::tier(12, 30)), rot = mc::choose(4), dup = mc::choose(3), step = 1 + mc::choose(3);
        mc::shard();
        Pts p;
        for (int i = 0; i < m; ++i) {
            std::vector<double> q(d);
            q[0] = 1 + i * 0.5;
            q[1] = 1 + (m - i) * 0.75;
            for (int k = 2; k < d; ++k)
                q[k] = 1 + (i * step) % 5;
            p.push_back(q);
            if (dup == 1)
                p.push_back(q);
            if (dup == 2) {
                q[i % d] -= 0.5;
                p.push_back(q);
            }
        }
        std::rotate(p.begin(), p.begin() + (p.size() * rot) / 4, p.end());
        verify(p, d);
        mc::state(key(p));
    },
    16);

// --- the statistic: after every iteration the volume dominated by the observations, relative to -ref
struct Pm {
    struct stat_hyper_volume {
        BO_PARAM_ARRAY(double, ref, 10, 4, 1);
    };
};
struct Bo { // what a statistic sees of an optimiser
    std::vector<VectorXd> X, Y;
    std::string dir;
    int it = 0;
    bool stats = true;
    bool stats_enabled() const { return stats; }
    const std::vector<VectorXd>& observations() const { return Y; }
    const std::vector<VectorXd>& samples() const { return X; }
    std::string res_dir() const { return dir; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
};
MC_SUITE(
    "statistic", [] {
        static const std::vector<double> VAL[2] = {{-12, -4, -0.5, 3}, {-11, -3, 2}};
        int d = 2 + mc::choose(2), n = 1 + mc::choose(d == 2 ? 3 : 2);
        static const double ref[3] = {10, 4, 1};
        Bo bo;
        for (int i = 0; i < n; ++i) {
            VectorXd y(d);
            for (int k = 0; k < d; ++k)
                y[k] = mc::pick(VAL[d - 2]);
            bo.Y.push_back(y);
            bo.X.push_back(VectorXd::Zero(1));
            if (i == 0)
                mc::shard();
        }
        char tmpl[] = "/dev/shm/verif_e02_XXXXXX", tmpl2[] = "/tmp/verif_e02_XXXXXX";
        char* dir = mkdtemp(tmpl);
        if (!dir)
            dir = mkdtemp(tmpl2);
        mc::check(dir, "scratch");
        bo.dir = dir;
        std::string file = bo.dir + "/hypervolume.dat";
        std::vector<double> expect, got, its;
        {
            limbo::experimental::stat::HyperVolume<Pm> s;
            Bo b = bo;
            b.Y.clear();
            s(b, limbo::FirstElem()); // nothing recorded, nothing written
            for (int i = 0; i < n; ++i) {
                b.Y.push_back(bo.Y[i]);
                b.it = i;
                s(b, limbo::FirstElem());
                Pts p;
                for (auto& y : b.Y) {
                    std::vector<double> q(d);
                    for (int k = 0; k < d; ++k)
                        q[k] = std::max(0., y[k] + ref[k]);
                    p.push_back(q);
                }
                expect.push_back((double)volume(p, d));
                mc::op();
            }
            mc::check(b.Y == bo.Y, "observations-changed");
        }
        {
            std::ifstream f(file);
            std::string line;
            while (std::getline(f, line)) {
                std::istringstream ls(line);
                double a, b;
                if (line.empty() || line[0] == '#' || !(ls >> a >> b))
                    continue;
                its.push_back(a);
                got.push_back(b);
            }
        }
        unlink(file.c_str());
        rmdir(dir);
        mc::check(got.size() == expect.size(), "statistic-records", mc::fmt("%zu lines instead of %zu", got.size(), expect.size()));
        for (size_t i = 0; i < got.size(); ++i)
            mc::check(its[i] == i && std::fabs(got[i] - expect[i]) <= 2e-5 * (1e-9 + expect[i]), "statistic", mc::fmt("record %zu: iteration %g, hypervolume %g instead of %g", i, its[i], got[i], expect[i]));
        uint64_t h = d;
        for (auto& y : bo.Y)
            h = mc::hash_bytes(y.data(), y.size() * 8, h);
        mc::state(h);
    },
    16);
MC_MAIN
