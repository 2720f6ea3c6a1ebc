// E07: the sparse model with pseudo-inputs: predictions, score and gradient against the dense Gaussian it stands for.
#include "mc.hpp"
#include "ref.hpp"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/experimental/model/spgp.hpp>
#include <limbo/kernel/exp.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/null_function.hpp>
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef ref::LD LD;
typedef std::vector<VectorXd> VV;
static int& next_rand()
{
    static int v = 0; // negative: explored
    return v;
}
extern "C" int rand() { return next_rand() < 0 ? mc::choose(-next_rand()) : next_rand(); }
extern "C" void srand(unsigned) {}
struct Pm {
    struct model_spgp : public limbo::defaults::model_spgp {
        VDYN(double, jitter);
        VDYN(double, samples_percent);
        VDYN(int, min_m);
    };
    struct kernel : public limbo::defaults::kernel {
    };
    struct kernel_exp : public limbo::defaults::kernel_exp {
        BO_PARAM(double, sigma_sq, 0.7);
        BO_PARAM(double, l, 0.5);
    };
    struct mean_constant {
        BO_PARAM(double, constant, 0.6);
    };
    struct opt_nloptgrad : public limbo::defaults::opt_nloptgrad {
        BO_PARAM(int, iterations, 60);
    };
    struct acqui_ei : public limbo::defaults::acqui_ei {
    };
    struct acqui_ucb : public limbo::defaults::acqui_ucb {
    };
};
static void params(double jitter, double percent, int min_m)
{
    Pm::model_spgp::set_jitter(jitter);
    Pm::model_spgp::set_samples_percent(percent);
    Pm::model_spgp::set_min_m(min_m);
}
// what is asked during the optimisation of hyper-parameters
struct Script {
    std::function<VectorXd(const std::function<limbo::opt::eval_t(const VectorXd&, bool)>&, const VectorXd&, bool)> f;
};
static Script& script()
{
    static Script s;
    return s;
}
template <typename P>
struct Scripted {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        return script().f([&](const VectorXd& x, bool g) { return f(x, g); }, init, bounded);
    }
};
template <typename P>
struct Recorded { // the default optimiser, watched
    limbo::opt::NLOptGrad<P, nlopt::LD_LBFGS> inner;
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded)
    {
        VectorXd found = inner(f, init, bounded);
        double a = limbo::opt::fun(f(init, false)), b = limbo::opt::fun(f(found, false));
        mc::check(b >= a - 1e-9 * (1 + std::fabs(a)), "worse-than-start", mc::fmt("score %.12g, %.12g at the start", b, a));
        return script().f([&](const VectorXd& x, bool g) { return f(x, g); }, found, bounded);
    }
};
// the Gaussian that the sparse model stands for: y ~ N(m, Q + diag(K - Q) + sig I) with Q = Knm (Kmm + jitter)^-1 Kmn
struct Dense {
    ref::Mat X, Xb, Kmm, S, Smn;
    ref::Vec y, b, alpha;
    LD c, sig, cond;
    Eigen::LDLT<ref::Mat> mm, s;
    LD k(const ref::Vec& p, const ref::Vec& q) const
    {
        return c * std::exp(-(p - q).cwiseAbs2().dot(b) / 2);
    }
    ref::Vec km(const ref::Vec& p) const
    {
        ref::Vec v(Xb.rows());
        for (int i = 0; i < v.size(); ++i)
            v[i] = k(p, Xb.row(i).transpose());
        return v;
    }
    template <typename HP>
    Dense(const HP& hp, const VV& x, const ref::Vec& y_, double jitter) : y(y_)
    {
        Xb = hp.xb.template cast<LD>();
        b = Eigen::Map<const VectorXd>(hp.b.data(), hp.b.size()).cast<LD>();
        c = hp.c;
        sig = hp.sig;
        int n = x.size(), m = Xb.rows();
        Kmm.resize(m, m);
        for (int i = 0; i < m; ++i)
            for (int j = 0; j < m; ++j)
                Kmm(i, j) = k(Xb.row(i).transpose(), Xb.row(j).transpose()) + (i == j ? (LD)jitter : 0);
        mm.compute(Kmm);
        Smn.resize(m, n);
        for (int j = 0; j < n; ++j)
            Smn.col(j) = km(x[j].cast<LD>());
        S = Smn.transpose() * mm.solve(Smn);
        for (int i = 0; i < n; ++i)
            S(i, i) = c + sig;
        s.compute(S);
        alpha = s.solve(y);
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(Kmm.cast<double>()), e2(S.cast<double>());
        cond = es.eigenvalues()[m - 1] / std::max(1e-300, es.eigenvalues()[0]);
        cond = std::max(cond, (LD)(e2.eigenvalues()[n - 1] / std::max(1e-300, e2.eigenvalues()[0])));
    }
    LD score() const { return -(y.dot(alpha) + s.vectorD().array().log().sum() + y.size() * std::log(2 * std::acos(-1.0L))) / 2; }
    LD mean(const VectorXd& v) const { return (mm.solve(km(v.cast<LD>()))).dot(Smn * alpha); }
    LD var(const VectorXd& v) const
    {
        ref::Vec q = Smn.transpose() * mm.solve(km(v.cast<LD>()));
        return c + sig - q.dot(s.solve(q));
    }
};
enum Mn { NUL, CST, DAT };
template <Mn M>
struct MT;
template <>
struct MT<NUL> {
    typedef limbo::mean::NullFunction<Pm> type;
};
template <>
struct MT<CST> {
    typedef limbo::mean::Constant<Pm> type;
};
template <>
struct MT<DAT> {
    typedef limbo::mean::Data<Pm> type;
};
static const double X1[7][3] = {{0.1, 0.9, 0.4}, {0.5, 0.15, 0.75}, {0.95, 0.6, 0.05}, {0.3, 0.35, 0.85}, {0.72, 0.05, 0.5}, {0.2, 0.5, 0.2}, {0.5, 0.15, 0.75}};
static const double Y1[7] = {1.0, -0.5, 2.0, 0.3, -1.7, 0.8, 0.1};
static VectorXd px(int i, int d)
{
    VectorXd v(d);
    for (int j = 0; j < d; ++j)
        v[j] = X1[i % 7][j];
    return v;
}
static VectorXd py(int i) { return VectorXd::Constant(1, Y1[i % 7]); }
// perturbations of the starting point, in log space for the scales
static VectorXd bend(const VectorXd& w, int k)
{
    static const double d[5][4] = {{0, 0, 0, 0}, {0.11, -0.2, 0.07, 0.3}, {-0.35, 0.4, 0.25, -0.15}, {0.6, 0.1, -0.5, 0.45}, {-0.8, -0.9, 0.5, 0.2}};
    VectorXd v = w;
    for (int i = 0; i < v.size(); ++i)
        v[i] += d[k][(i * 3 + k) % 4];
    return v;
}
template <Mn M, template <typename> class Opt = Scripted>
struct Sys {
    typedef limbo::model::SPGP<Pm, limbo::kernel::Exp<Pm>, typename MT<M>::type, Opt<Pm>> Model;
    typedef typename Model::HyperParams HP;
    std::vector<double> memory; // what a model does not initialise is not zero
    Model& model;
    VV X;
    std::vector<double> Y;
    int dim = 0;
    double constant = 0.6;
    int optimised = 0;
    VectorXd last;
    bool real = false; // the real optimiser answers
    std::function<VectorXd(const std::function<limbo::opt::eval_t(const VectorXd&, bool)>&, const VectorXd&)> answer;
    Sys(const Sys&) = delete;
    ~Sys() { model.~Model(); }
    Sys() : memory(sizeof(Model) / sizeof(double) + 4, 1234.5), model(*new (memory.data() + (((size_t)memory.data() % 16) ? 1 : 0)) Model())
    {
        script().f = [this](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>& f, const VectorXd& init, bool bounded) {
            mc::check(!bounded, "bounded-search");
            ++optimised;
            mc::op();
            if (!real)
                start(init);
            last = answer(f, init);
            return last;
        };
        answer = [](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>&, const VectorXd& init) { return init; };
    }
    double prior() const { return M == NUL ? 0 : M == CST ? constant : avg(); }
    double avg() const
    {
        double s = 0;
        for (double v : Y)
            s += v;
        return Y.empty() ? 0 : s / Y.size();
    }
    ref::Vec y() const
    {
        ref::Vec v(Y.size());
        for (size_t i = 0; i < Y.size(); ++i)
            v[i] = (LD)Y[i] - (LD)prior();
        return v;
    }
    int m() const
    {
        int k = (int)(Pm::model_spgp::samples_percent() * X.size() / 100);
        return std::min<int>(X.size(), std::max(k, Pm::model_spgp::min_m()));
    }
    // the search starts from distinct training inputs
    void start(const VectorXd& w)
    {
        int mm = m();
        mc::check(w.size() == (mm + 1) * dim + 2, "start-size", mc::fmt("%d parameters for %d pseudo-inputs in %d dimensions", (int)w.size(), mm, dim));
        for (int i = 0; i < w.size(); ++i)
            mc::check(std::isfinite(w[i]), "start-finite", mc::fmt("the search starts from parameter %d = %g", i, w[i]));
        HP hp(w, mm, dim);
        std::vector<char> used(X.size(), 0);
        for (int i = 0; i < mm; ++i) {
            bool ok = false;
            for (size_t j = 0; j < X.size() && !ok; ++j)
                if (!used[j] && (hp.xb.row(i).transpose() - X[j]).norm() < 1e-12)
                    ok = used[j] = 1;
            mc::check(ok, "start-not-a-subset", mc::fmt("pseudo-input %d of the start is not a training input", i));
        }
    }
    Dense dense(const VectorXd& w) const { return Dense(HP(w, m(), dim), X, y(), Pm::model_spgp::jitter()); }
    void query(const std::function<limbo::opt::eval_t(const VectorXd&, bool)>& f, const VectorXd& w, bool g)
    {
        limbo::opt::eval_t r = f(w, g);
        Dense d = dense(w);
        LD e = d.score();
        double tol = 1e-7 + 1e-14 * (double)d.cond;
        if (tol > 1e-2) {
            mc::count("too ill-conditioned to compare");
            return;
        }
        mc::check(std::fabs(limbo::opt::fun(r) - e) <= tol * (1 + std::fabs((double)e)), "score", mc::fmt("%.12g expected %.12Lg (n=%d m=%d)", limbo::opt::fun(r), e, (int)X.size(), m()));
        if (!g)
            return;
        VectorXd gr = limbo::opt::grad(r);
        mc::check(gr.size() == w.size(), "gradient-size");
        ref::V wv(w.data(), w.data() + w.size());
        ref::V ge = ref::GP::diff(wv, [&](const ref::V& h) { return dense(Eigen::Map<const VectorXd>(h.data(), h.size())).score(); });
        double s = 1;
        for (double v : ge)
            s = std::max(s, std::fabs(v));
        for (int i = 0; i < gr.size(); ++i)
            mc::check(std::fabs(gr[i] - ge[i]) <= 1e2 * tol * s, "gradient", mc::fmt("[%d of %d] %.12g expected %.12g (n=%d m=%d, condition %g)", i, (int)gr.size(), gr[i], ge[i], (int)X.size(), m(), (double)d.cond));
    }
    void data()
    {
        mc::check(model.nb_samples() == (int)X.size(), "count");
        VV s = model.samples();
        mc::check(s.size() == X.size(), "samples");
        for (size_t i = 0; i < X.size(); ++i)
            mc::check(s[i] == X[i], "samples", mc::fmt("sample %zu differs", i));
        if (X.empty())
            return;
        mc::check((int)model.dim_in() == dim && (int)model.dim_out() == 1, "dimensions");
        mc::check(std::fabs(model.mean_observation()[0] - avg()) < 1e-12, "mean-observation");
        double mx = Y[0];
        for (double v : Y)
            mx = std::max(mx, v);
        mc::check(model.max_observation()[0] == mx, "max-observation");
    }
    void verify()
    {
        data();
        HP hp(last, m(), dim);
        mc::check(model.nb_pseudo_samples() == m(), "pseudo-count", mc::fmt("%d expected %d", model.nb_pseudo_samples(), m()));
        VV p = model.pseudo_samples();
        for (int i = 0; i < m(); ++i)
            mc::check((p[i] - hp.xb.row(i).transpose()).norm() < 1e-12, "pseudo-inputs", mc::fmt("pseudo-input %d is not the one the search returned", i));
        Dense d = dense(last);
        double tol = 1e-7 + 1e-14 * (double)d.cond;
        if (tol > 1e-2) {
            mc::count("too ill-conditioned to compare");
            return;
        }
        MatrixXd all(6, dim);
        ref::Vec em(6), ev(6);
        double s = 1 + std::fabs(prior());
        for (double v : Y)
            s += std::fabs(v);
        for (int q = 0; q < 6; ++q) {
            VectorXd v = q < 4 ? px(q + 3, dim) : VectorXd(VectorXd::Constant(dim, q == 4 ? 0.01 : 3.0));
            all.row(q) = v.transpose();
            em[q] = (LD)prior() + d.mean(v);
            ev[q] = d.var(v);
            VectorXd mu;
            double sg;
            std::tie(mu, sg) = model.query(v);
            mc::check(mu.size() == 1 && std::fabs(mu[0] - em[q]) <= tol * s, "mean", mc::fmt("%.12g expected %.12Lg (n=%d m=%d d=%d, point %d)", mu[0], em[q], (int)X.size(), m(), dim, q));
            mc::check(std::fabs(sg - ev[q]) <= tol * (1 + (double)ev[q]), "variance", mc::fmt("%.12g expected %.12Lg (n=%d m=%d d=%d, point %d)", sg, ev[q], (int)X.size(), m(), dim, q));
            mc::check(std::fabs(model.sigma(v) - ev[q]) <= tol * (1 + (double)ev[q]), "sigma", mc::fmt("%.12g expected %.12Lg", model.sigma(v), ev[q]));
        }
        MatrixXd mu = model.mu(all);
        VectorXd sg = model.sigma_mult(all);
        VV mm = model.mu_mult(all);
        std::pair<MatrixXd, MatrixXd> pr = model.predict(all);
        mc::check(mu.rows() == 6 && sg.size() == 6 && mm.size() == 6 && pr.first.rows() == 6 && pr.second.rows() == 6, "batch-size");
        for (int q = 0; q < 6; ++q) {
            mc::check(std::fabs(mu(q, 0) - em[q]) <= tol * s && std::fabs(mm[q][0] - em[q]) <= tol * s && std::fabs(pr.first(q, 0) - em[q]) <= tol * s, "batch-mean");
            mc::check(std::fabs(sg[q] - ev[q]) <= tol * (1 + (double)ev[q]) && std::fabs(pr.second(q, 0) - ev[q]) <= tol * (1 + (double)ev[q]), "batch-variance");
        }
    }
    void compute(int from, int n, int d)
    {
        X.clear();
        Y.clear();
        dim = d;
        constant = 0.6; // a fit starts with new functions
        VV o;
        for (int i = 0; i < n; ++i) {
            X.push_back(px(from + i, d));
            o.push_back(py(from + i));
            Y.push_back(o.back()[0]);
        }
        model.compute(X, o);
    }
    void add(int i)
    {
        if (X.empty())
            dim = dim ? dim : 2;
        VectorXd p = px(i, dim);
        X.push_back(p);
        Y.push_back(py(i)[0]);
        model.add_sample(p, py(i));
    }
};
static const std::vector<std::array<double, 3>> CONF = {{{1e-6, 10, 1}}, {{1e-6, 50, 1}}, {{1e-4, 100, 1}}, {{1e-6, 10, 2}}, {{1e-3, 40, 3}}};
static void conf()
{
    auto& c = CONF[mc::choose(CONF.size())];
    params(c[0], c[1], c[2]);
}
// every history of operations with every answer of the search
template <Mn M>
static void history(int depth)
{
    conf();
    mc::shard();
    Sys<M> s;
    std::string st;
    s.answer = [&](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>&, const VectorXd& init) { return bend(init, mc::choose(2) * 2); };
    for (int k = 0; k < depth; ++k) {
        int o = mc::choose(M == CST ? 9 : 8), before = s.optimised;
        st += mc::fmt("%d ", o);
        mc::note(mc::fmt("op%d", o));
        mc::op();
        if (o == 0)
            s.compute(0, 3, 1);
        else if (o == 1)
            s.compute(1, 4, 2);
        else if (o == 2)
            s.compute(0, 6, 2);
        else if (o == 3 || o == 4)
            s.add(o + k);
        else if (s.X.empty())
            throw mc::Skip();
        else if (o == 5)
            s.model.recompute();
        else if (o == 6)
            s.model.optimize_hyperparams();
        else if (o == 7) { // a copy survives what happens to the original
            typename Sys<M>::Model c(s.model);
            auto f = script().f;
            script().f = [](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>&, const VectorXd& init, bool) { return init; };
            s.model.compute(VV{px(3, 2), px(0, 2)}, VV{py(1), py(2)});
            script().f = f;
            s.model = c;
            before = s.optimised - 1;
        }
        else if (o == 8) {
            s.constant = -1.5 + k;
            s.model.mean_function().set_h_params(VectorXd::Constant(1, s.constant));
            s.model.recompute();
        }
        mc::check(s.optimised == before + 1, "optimised-once", mc::fmt("%d searches", s.optimised - before));
        if (mc::fresh()) {
            s.verify();
            mc::state(st + mc::fmt("%d %g", (int)s.X.size(), s.last.size() ? s.last[0] : 0));
        }
    }
}
MC_SUITE("history_null", [] { history<NUL>(mc::tier(3, 4)); }, 3);
MC_SUITE("history_const", [] { history<CST>(mc::tier(3, 4)); }, 3);
MC_SUITE("history_data", [] { history<DAT>(mc::tier(3, 4)); }, 3);

// every sequence of questions during a search, on models built in one or several steps
template <Mn M>
static void questions(int len)
{
    conf();
    int how = mc::choose(4), n = 1 + mc::choose(5), d = 1 + mc::choose(3);
    mc::shard();
    Sys<M> s;
    s.dim = d;
    int at = 0;
    std::string st = mc::fmt("%d %d %d", how, n, d);
    s.answer = [&](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>& f, const VectorXd& init) {
        ++at;
        if (how != 2 || (int)s.X.size() == n)
            for (int q = 0; q < len; ++q) {
                int w = mc::choose(5), g = mc::choose(2);
                if (mc::fresh())
                    s.query(f, bend(init, w), g);
            }
        return bend(init, 1);
    };
    if (how == 0) // one fit
        s.compute(0, n, d);
    else if (how == 1) { // a fit of other data, then this one
        auto a = s.answer;
        s.answer = [](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>&, const VectorXd& init) { return init; };
        s.compute(2, 2, 2);
        s.answer = a;
        s.compute(0, n, d);
    }
    else if (how == 2) // one by one, from nothing
        for (int i = 0; i < n; ++i)
            s.add(i);
    else { // constructed, then optimised
        VV o;
        for (int i = 0; i < n; ++i) {
            s.X.push_back(px(i, d));
            o.push_back(py(i));
            s.Y.push_back(py(i)[0]);
        }
        s.model = typename Sys<M>::Model(s.X, o);
        s.data();
        s.model.optimize_hyperparams();
    }
    mc::check(at > 0, "not-optimised");
    s.verify();
    mc::state(st);
}
MC_SUITE("questions_null", [] { questions<NUL>(mc::tier(2, 3)); }, 8);
MC_SUITE("questions_data", [] { questions<DAT>(mc::tier(2, 3)); }, 8);
// the start of the search, for every outcome of the shuffle
MC_SUITE("start", [] {
    conf();
    int n = 1 + mc::choose(4), d = 1 + mc::choose(3);
    mc::shard();
    Sys<DAT> s;
    next_rand() = -mc::tier(6, 12);
    s.compute(mc::choose(2), n, d);
    next_rand() = 0;
    s.verify();
    mc::state(mc::fmt("%d %d %g", n, d, s.last[0]));
}, 3);
// before any data: the prior
MC_SUITE("prior", [] {
    params(1e-6, 10, 1);
    int din = 1 + mc::choose(3), dout = 1 + mc::choose(2);
    typedef Sys<CST>::Model G;
    G g(din, dout);
    mc::op();
    mc::check((int)g.dim_in() == din && (int)g.dim_out() == dout && g.nb_samples() == 0 && g.nb_pseudo_samples() == 0, "prior-dimensions");
    mc::check(g.mean_observation().isZero() && g.mean_observation().size() == dout, "prior-mean-observation");
    for (int i = 0; i < 5; ++i) {
        VectorXd v = px(i, din);
        std::pair<MatrixXd, MatrixXd> p = g.predict(v.transpose());
        mc::check(p.first.rows() == 1 && p.first.cols() == dout, "prior-size");
        for (int o = 0; o < dout; ++o)
            mc::check(std::fabs(p.first(0, o) - 0.6) < 1e-12, "prior-mean");
        mc::check(std::fabs(p.second(0, 0) - 0.7) < 1e-12 && std::fabs(g.sigma(v) - 0.7) < 1e-12, "prior-variance");
    }
    mc::state(mc::fmt("%d %d", din, dout));
});
// data without spread: coordinates that do not vary, equal values, one point given twice
MC_SUITE("degenerate", [] {
    conf();
    int n = 1 + mc::choose(4), d = 1 + mc::choose(2), flat = mc::choose(4), same = mc::choose(3);
    Sys<DAT> s;
    s.dim = d;
    VV o;
    for (int i = 0; i < n; ++i) {
        VectorXd p = px(i, d);
        for (int j = 0; j < d; ++j)
            if (flat >> j & 1)
                p[j] = 0.25;
        double y = same == 0 ? 0 : same == 1 ? 1.5 : Y1[i];
        s.X.push_back(p);
        s.Y.push_back(y);
        o.push_back(VectorXd::Constant(1, y));
    }
    s.answer = [&](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>& f, const VectorXd& init) {
        s.query(f, init, true);
        return init;
    };
    s.model.compute(s.X, o);
    mc::op();
    s.verify();
    mc::state(mc::fmt("%d %d %d %d", n, d, flat, same));
});
// the default search never ends below its start, and what it returns is what the model uses
template <Mn M>
static void real(int depth)
{
    conf();
    Sys<M, Recorded> s;
    s.real = true;
    double best = 0;
    s.answer = [&](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>& f, const VectorXd& found) {
        for (int i = 0; i < found.size(); ++i)
            mc::check(std::isfinite(found[i]), "real-finite", mc::fmt("the search ended at parameter %d = %g", i, found[i]));
        best = limbo::opt::fun(f(found, false));
        return found;
    };
    for (int k = 0; k < depth; ++k) {
        int o = mc::choose(5);
        mc::op();
        if (o < 2)
            s.compute(o, 3 + o * 2, 1 + o);
        else if (o == 2)
            s.add(k + 1);
        else if (s.X.empty())
            throw mc::Skip();
        else if (o == 3)
            s.model.recompute();
        else
            s.model.optimize_hyperparams();
        if (mc::fresh())
            s.verify();
        mc::state(mc::fmt("%d %d %g", o, (int)s.X.size(), best));
    }
}
MC_SUITE("real_null", [] { real<NUL>(mc::tier(3, 4)); }, 2);
MC_SUITE("real_data", [] { real<DAT>(mc::tier(3, 4)); }, 2);
// as the model behind an acquisition function
struct First {
    double operator()(const VectorXd& v) const { return v[0]; }
};
MC_SUITE("acquisition", [] {
    conf();
    int n = 2 + mc::choose(4), d = 1 + mc::choose(3), k = mc::choose(5);
    Sys<DAT> s;
    s.answer = [&](const std::function<limbo::opt::eval_t(const VectorXd&, bool)>&, const VectorXd& init) { return bend(init, k); };
    s.compute(0, n, d);
    mc::op();
    Dense de = s.dense(s.last);
    if (1e-14 * (double)de.cond > 1e-4)
        throw mc::Skip();
    typedef Sys<DAT>::Model G;
    limbo::acqui::UCB<Pm, G> ucb(s.model);
    for (int q = 0; q < 7; ++q) {
        VectorXd v = px(q, d);
        double e = s.prior() + (double)de.mean(v) + Pm::acqui_ucb::alpha() * std::sqrt((double)de.var(v));
        double a = limbo::opt::fun(ucb(v, First(), false));
        mc::check(std::fabs(a - e) < 1e-4 * (1 + std::fabs(e)), "ucb", mc::fmt("%.9g expected %.9g", a, e));
    }
    mc::state(mc::fmt("%d %d %d", n, d, k));
});
MC_MAIN
