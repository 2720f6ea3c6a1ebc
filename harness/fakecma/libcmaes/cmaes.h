// A stand-in for libcmaes (not installed here) with the same interface and the documented semantics of its
// settings, whose candidates are chosen by a script: the explorer drives every answer the library could give.
#ifndef VERIF_FAKE_CMAES
#define VERIF_FAKE_CMAES
#include <Eigen/Core>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> dVec;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> dMat;
enum { CMAES_DEFAULT = 0,
    IPOP_CMAES = 1,
    BIPOP_CMAES = 2,
    aCMAES = 3,
    aIPOP_CMAES = 4,
    aBIPOP_CMAES = 5,
    sepCMAES = 6,
    sepIPOP_CMAES = 7,
    sepBIPOP_CMAES = 8,
    sepaCMAES = 9,
    sepaIPOP_CMAES = 10,
    sepaBIPOP_CMAES = 11,
    VD_CMAES = 12,
    VD_IPOP_CMAES = 13,
    VD_BIPOP_CMAES = 14 };
namespace libcmaes {
    using ::dMat;
    using ::dVec;
    typedef std::function<double(const double*, const int)> FitFunc;
    enum CMAStopCritType {
        CONT = 0,
        AUTOMAXITER = 10,
        TOLHISTFUN = 1,
        EQUALFUNVALS = 5,
        TOLX = 2,
        TOLUPSIGMA = -3,
        STAGNATION = 6,
        CONDITIONCOV = -4,
        NOEFFECTAXIS = 3,
        NOEFFECTCOOR = 4,
        MAXFEVALS = 7,
        MAXITER = 8,
        FTARGET = 9
    };
    // the settings of a run, with the library's defaults
    struct Settings {
        std::vector<double> x0;
        double sigma = -1;
        int dim = 0, lambda = -1, algo = CMAES_DEFAULT, restarts = 9, elitism = 0, max_fevals = -1, max_iter = -1;
        double ftolerance = 1e-12, xtolerance = 1e-12, ftarget = -std::numeric_limits<double>::infinity();
        bool initial_fvalue = false, uh = false, quiet = true, mt = false;
        std::map<int, bool> off;
        bool on(int c) const
        {
            auto it = off.find(c);
            return it == off.end() || !it->second;
        }
    };
    struct NoBoundStrategy {
        NoBoundStrategy() {}
        NoBoundStrategy(const double*, const double*, int) {}
        double to(int, double x) const { return x; }
        double from(int, double x) const { return x; }
    };
    // piecewise linear / quadratic bound transformation
    struct pwqBoundStrategy {
        std::vector<double> lb, ub;
        pwqBoundStrategy() {}
        pwqBoundStrategy(const double* l, const double* u, int n) : lb(l, l + n), ub(u, u + n) {}
        double al(int i) const { return std::min((ub[i] - lb[i]) / 2, (1 + std::fabs(lb[i])) / 20); }
        double au(int i) const { return std::min((ub[i] - lb[i]) / 2, (1 + std::fabs(ub[i])) / 20); }
        double to(int i, double x) const // genotype -> phenotype
        {
            if (lb.empty())
                return x;
            double a = al(i), b = au(i), w = ub[i] - lb[i];
            // the genotype is periodic: it mirrors at lb - a and ub + b
            double lo = lb[i] - a, hi = ub[i] + b, r = 2 * (hi - lo);
            (void)w;
            x = std::fmod(x - lo, r);
            if (x < 0)
                x += r;
            if (x > r / 2)
                x = r - x;
            x += lo;
            if (x < lb[i] + a)
                return lb[i] + (x - (lb[i] - a)) * (x - (lb[i] - a)) / (4 * a);
            if (x < ub[i] - b)
                return x;
            return ub[i] - (x - (ub[i] + b)) * (x - (ub[i] + b)) / (4 * b);
        }
        double from(int i, double x) const
        {
            if (lb.empty())
                return x;
            double a = al(i), b = au(i);
            if (x < lb[i] + a)
                return (lb[i] - a) + 2 * std::sqrt(std::fabs(a * (x - lb[i])));
            if (x < ub[i] - b)
                return x;
            return (ub[i] + b) - 2 * std::sqrt(std::fabs(b * (ub[i] - x)));
        }
    };
    template <class B = NoBoundStrategy>
    struct GenoPheno {
        B b;
        GenoPheno() {}
        GenoPheno(const double* l, const double* u, const int& n) : b(l, u, n) {}
        dVec pheno(const dVec& x) const
        {
            dVec y = x;
            for (int i = 0; i < y.size(); ++i)
                y[i] = b.to(i, y[i]);
            return y;
        }
        dVec geno(const dVec& x) const
        {
            dVec y = x;
            for (int i = 0; i < y.size(); ++i)
                y[i] = b.from(i, y[i]);
            return y;
        }
    };
    template <class G = GenoPheno<NoBoundStrategy>>
    struct CMAParameters {
        Settings s;
        G gp;
        CMAParameters(const std::vector<double>& x0, const double& sigma, const int& lambda = -1, const uint64_t& = 0, const G& g = G()) : gp(g)
        {
            s.x0 = x0;
            s.dim = x0.size();
            s.sigma = sigma;
            s.lambda = lambda;
        }
        CMAParameters(const int& dim, const double* x0, const double& sigma, const int& lambda = -1, const uint64_t& = 0, const G& g = G()) : gp(g)
        {
            s.x0.assign(x0, x0 + dim);
            s.dim = dim;
            s.sigma = sigma;
            s.lambda = lambda;
        }
        void set_mt_feval(const bool& b) { s.mt = b; }
        void set_algo(const int& a) { s.algo = a; }
        void set_str_algo(const std::string&) {}
        void set_restarts(const int& n) { s.restarts = n; }
        void set_elitism(const int& n) { s.elitism = n; }
        void set_max_fevals(const int& n) { s.max_fevals = n; }
        void set_max_iter(const int& n) { s.max_iter = n; }
        void set_ftolerance(const double& v) { s.ftolerance = v; }
        void set_xtolerance(const double& v) { s.xtolerance = v; }
        void set_ftarget(const double& v) { s.ftarget = v; }
        void reset_ftarget() { s.ftarget = -std::numeric_limits<double>::infinity(); }
        void set_initial_fvalue(const bool& b) { s.initial_fvalue = b; }
        void set_uh(const bool& b) { s.uh = b; }
        void set_quiet(const bool& b) { s.quiet = b; }
        void set_seed(const int&) {}
        int dim() const { return s.dim; }
        int lambda() const { return s.lambda; }
        template <class C>
        void set_stopping_criteria(const C& c, const bool& active) { s.off[(int)c] = !active; }
    };
    struct Candidate {
        double f = std::numeric_limits<double>::infinity();
        dVec x;
        double get_fvalue() const { return f; }
        dVec get_x_dvec() const { return x; }
        const dVec& get_x_dvec_ref() const { return x; }
        std::vector<double> get_x() const { return std::vector<double>(x.data(), x.data() + x.size()); }
        const double* get_x_ptr() const { return x.data(); }
        unsigned get_x_size() const { return x.size(); }
    };
    struct CMASolutions {
        Candidate best, last;
        std::vector<Candidate> gen;
        dVec mean;
        int iter = 0, evals = 0, status = CONT;
        dVec xmean() const { return mean; }
        Candidate best_candidate() const { return last; }
        Candidate get_best_seen_candidate() const { return best; }
        const std::vector<Candidate>& candidates() const { return gen; }
        int niter() const { return iter; }
        int nevals() const { return evals; }
        int fevals() const { return evals; }
        int run_status() const { return status; }
        int dim() const { return mean.size(); }
        double edm() const { return 0; }
        double sigma() const { return 1; }
    };
    struct CovarianceUpdate {
    };
    struct ACovarianceUpdate {
    };
    template <class P, class S>
    using ProgressFunc = std::function<int(const P&, const S&)>;
    template <class U, class G = GenoPheno<NoBoundStrategy>>
    struct CMAStrategy {
        static ProgressFunc<CMAParameters<G>, CMASolutions> _defaultPFunc;
    };
    template <class U, class G>
    ProgressFunc<CMAParameters<G>, CMASolutions> CMAStrategy<U, G>::_defaultPFunc = [](const CMAParameters<G>&, const CMASolutions&) { return 0; };

    // what the explorer decides: the candidates of each generation (genotypes); false: the search converged
    struct Script {
        std::function<bool(const Settings&, int run, int generation, const dVec& mean, std::vector<dVec>& candidates)> generation;
        std::vector<Settings> started;
    };
    inline Script*& script()
    {
        static Script* s = nullptr;
        return s;
    }
    // the documented behaviour of the settings, on scripted candidates
    template <class G>
    CMASolutions drive(const Settings& s, const G& gp, const std::function<bool(const Settings&, int, int, const dVec&, std::vector<dVec>&)>& candidates,
        const std::function<double(const dVec&)>& f, const std::function<int(const CMASolutions&)>& progress)
    {
        CMASolutions sol;
        dVec x0 = Eigen::Map<const dVec>(s.x0.data(), s.x0.size());
        sol.mean = x0;
        if (s.initial_fvalue) {
            Candidate c;
            c.x = x0;
            c.f = f(gp.pheno(x0));
            sol.evals++;
            sol.best = c;
        }
        bool over = false;
        for (int run = 0; !over && run <= s.restarts; ++run) {
            std::vector<double> best;
            int stalled = 0;
            for (int g = 0; !over; ++g) {
                std::vector<dVec> xs;
                if (!candidates(s, run, g, sol.mean, xs))
                    break;
                sol.gen.clear();
                dVec before = sol.mean;
                for (auto& x : xs) {
                    Candidate c;
                    c.x = x;
                    c.f = f(gp.pheno(x));
                    sol.evals++;
                    sol.gen.push_back(c);
                    if (sol.best.x.size() == 0 || c.f < sol.best.f) {
                        sol.best = c;
                        stalled = -1;
                    }
                }
                stalled++;
                sol.last = sol.gen[0];
                dVec m = dVec::Zero(s.dim);
                for (auto& c : sol.gen) {
                    m += c.x / sol.gen.size();
                    if (c.f < sol.last.f)
                        sol.last = c;
                }
                sol.mean = m;
                best.push_back(sol.last.f);
                sol.iter++;
                if (progress(sol))
                    over = true;
                size_t k = best.size();
                if (s.on(MAXFEVALS) && s.max_fevals > 0 && sol.evals >= s.max_fevals)
                    over = true;
                if (s.on(MAXITER) && s.max_iter > 0 && sol.iter >= s.max_iter)
                    over = true;
                if (s.on(FTARGET) && sol.best.f <= s.ftarget)
                    over = true;
                if (s.on(AUTOMAXITER) && g >= 3)
                    break;
                if (s.on(TOLHISTFUN) && k > 1 && std::fabs(best[k - 1] - best[k - 2]) < s.ftolerance)
                    break;
                if (s.on(EQUALFUNVALS) && k > 1 && best[k - 1] == best[k - 2])
                    break;
                if (s.on(STAGNATION) && stalled > 1)
                    break;
                if (s.on(TOLX) && (sol.mean - before).cwiseAbs().maxCoeff() < s.xtolerance)
                    break;
                if (s.on(NOEFFECTAXIS) || s.on(NOEFFECTCOOR))
                    break; // these consider a partial success as the end
            }
        }
        return sol;
    }
    template <class G = GenoPheno<NoBoundStrategy>>
    CMASolutions cmaes(FitFunc& func, CMAParameters<G>& p, ProgressFunc<CMAParameters<G>, CMASolutions>& pf = CMAStrategy<CovarianceUpdate, G>::_defaultPFunc)
    {
        Script* sc = script();
        sc->started.push_back(p.s);
        return drive(
            p.s, p.gp, sc->generation, [&](const dVec& x) { return func(x.data(), x.size()); }, [&](const CMASolutions& s) { return pf(p, s); });
    }
} // namespace libcmaes
#endif
