// Independent reference semantics, in long double: kernels, means, exact GP posterior, scores.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <Eigen/Dense>
#include <cmath>
#include <string>
#include <vector>
namespace ref {
    typedef long double LD;
    typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> Mat;
    typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> Vec;
    typedef std::vector<double> V;
    enum KType { EXP, ARD, M52, M32 };
    enum MType { NUL, CONST, DATA, FARD };

    struct Kernel {
        KType t = EXP;
        int dim = 1, k = 0; // k: columns of the low-rank factor (ARD)
        bool opt_noise = false;
        double l0 = 1, sf0 = 1, noise0 = 0.01; // documented initial values
        V hp; // log-space parameters, noise last if optimised
        void reset(int d)
        {
            dim = d;
            hp.clear();
            if (t == ARD) {
                hp.assign(dim + dim * k + 1, 0.0);
                hp.back() = std::log(std::sqrt(sf0));
            }
            else {
                hp.push_back(std::log(l0));
                hp.push_back(std::log(std::sqrt(sf0)));
            }
            if (opt_noise)
                hp.push_back(std::log(std::sqrt(noise0)));
        }
        size_t nbase() const { return t == ARD ? dim + dim * k + 1 : 2; }
        size_t size() const { return nbase() + (opt_noise ? 1 : 0); }
        LD noise(const V& h) const { return opt_noise ? std::exp(2.0L * (LD)h.back()) : (LD)noise0; }
        LD noise() const { return noise(hp); }
        LD sf2(const V& h) const { return std::exp(2.0L * (LD)h[nbase() - 1]); }
        LD value(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const V& h) const
        {
            Vec d = a.cast<LD>() - b.cast<LD>();
            LD s2 = sf2(h);
            if (t == ARD) {
                LD z = 0;
                for (int i = 0; i < dim; ++i) {
                    LD e = d[i] / std::exp((LD)h[i]);
                    z += e * e;
                }
                for (int j = 0; j < k; ++j) {
                    LD s = 0;
                    for (int i = 0; i < dim; ++i)
                        s += (LD)h[(j + 1) * dim + i] * d[i];
                    z += s * s;
                }
                return s2 * std::exp(-z / 2);
            }
            LD l = std::exp((LD)h[0]);
            LD r = std::sqrt((LD)d.squaredNorm()) / l;
            if (t == EXP)
                return s2 * std::exp(-r * r / 2);
            if (t == M52) {
                LD q = std::sqrt((LD)5) * r;
                return s2 * (1 + q + q * q / 3) * std::exp(-q);
            }
            LD q = std::sqrt((LD)3) * r;
            return s2 * (1 + q) * std::exp(-q);
        }
        LD value(const Eigen::VectorXd& a, const Eigen::VectorXd& b) const { return value(a, b, hp); }
    };

    struct Mean {
        MType t = NUL, inner = NUL; // FARD wraps inner
        int dim = 1;
        double c0 = 1;
        V hp;
        size_t ninner() const { return (t == CONST || (t == FARD && inner == CONST)) ? 1 : 0; }
        size_t size() const { return (t == FARD ? dim * (dim + 1) : 0) + ninner(); }
        void reset(int d)
        {
            dim = d;
            hp.clear();
            if (t == FARD)
                for (int i = 0; i < dim; ++i)
                    for (int j = 0; j <= dim; ++j)
                        hp.push_back(i == j ? 1 : 0);
            if (ninner())
                hp.push_back(c0);
        }
        Vec value(const V& h, const Vec& data_mean) const
        {
            Vec in(dim);
            MType it = t == FARD ? inner : t;
            for (int i = 0; i < dim; ++i)
                in[i] = it == NUL ? (LD)0 : it == CONST ? (LD)h.back() : data_mean[i];
            if (t != FARD)
                return in;
            Vec o(dim);
            for (int i = 0; i < dim; ++i) {
                o[i] = h[i * (dim + 1) + dim];
                for (int j = 0; j < dim; ++j)
                    o[i] += (LD)h[i * (dim + 1) + j] * in[j];
            }
            return o;
        }
        Vec value(const Vec& data_mean) const { return value(hp, data_mean); }
    };

    struct GP {
        int din = -1, dout = -1;
        Kernel kern;
        Mean mean;
        std::vector<Eigen::VectorXd> X, Y;
        // derived
        Mat K, L, alpha, Kinv, R;
        Vec dm;
        bool dirty = true;
        void dims(int a, int b)
        {
            if (a != din) {
                din = a;
                kern.reset(a);
            }
            if (b != dout) {
                dout = b;
                mean.reset(b);
            }
            dirty = true;
        }
        static const LD jitter() { return 1e-8L; }
        Vec data_mean() const
        {
            Vec m = Vec::Zero(dout);
            if (X.empty())
                return m;
            for (auto& y : Y)
                m += y.cast<LD>();
            return m / (LD)Y.size();
        }
        void build(const V& kh, const V& mh, Mat& K, Mat& L, Mat& R, Mat& alpha) const
        {
            int n = X.size();
            K.resize(n, n);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    K(i, j) = kern.value(X[i], X[j], kh) + (i == j ? kern.noise(kh) + jitter() : 0);
            Eigen::LLT<Mat> llt(K);
            L = llt.matrixL();
            Vec m = mean.value(mh, data_mean());
            R.resize(n, dout);
            for (int i = 0; i < n; ++i)
                R.row(i) = (Y[i].cast<LD>() - m).transpose();
            alpha = llt.solve(R);
        }
        void prepare()
        {
            if (!dirty)
                return;
            dm = data_mean();
            if (!X.empty())
                build(kern.hp, mean.hp, K, L, R, alpha);
            dirty = false;
        }
        Vec mu(const Eigen::VectorXd& v)
        {
            prepare();
            Vec m = mean.value(dm);
            for (size_t i = 0; i < X.size(); ++i)
                m += kern.value(X[i], v) * alpha.row(i).transpose();
            return m;
        }
        LD var(const Eigen::VectorXd& v)
        {
            prepare();
            LD s = kern.value(v, v);
            if (!X.empty()) {
                Vec kk(X.size());
                for (size_t i = 0; i < X.size(); ++i)
                    kk[i] = kern.value(X[i], v);
                Vec z = L.triangularView<Eigen::Lower>().solve(kk);
                s -= z.squaredNorm();
                if (s < 0)
                    s = 0;
            }
            return s + kern.noise();
        }
        LD loglik(const V& kh, const V& mh) const
        {
            Mat K, L, R, a;
            build(kh, mh, K, L, R, a);
            LD q = 0;
            for (int c = 0; c < dout; ++c)
                q += R.col(c).dot(a.col(c));
            LD ld = 0;
            for (int i = 0; i < L.rows(); ++i)
                ld += std::log(L(i, i));
            // documented generalisation to several outputs: the data term is summed, the
            // normalisation appears once
            return -q / 2 - ld - (LD)X.size() / 2 * std::log(2 * (LD)M_PIl);
        }
        LD loo(const V& kh, const V& mh) const
        {
            Mat K, L, R, a;
            build(kh, mh, K, L, R, a);
            Mat inv = Eigen::LLT<Mat>(K).solve(Mat::Identity(K.rows(), K.rows()));
            LD s = 0;
            for (int c = 0; c < dout; ++c)
                for (int i = 0; i < K.rows(); ++i) {
                    LD s2 = 1 / inv(i, i);
                    LD d = a(i, c) * s2; // y - mu_{-i}
                    s += -std::log(s2) / 2 - d * d / (2 * s2) - std::log(2 * (LD)M_PIl) / 2;
                }
            return s;
        }
        // central differences in long double
        template <typename F>
        static V diff(const V& h, F f)
        {
            V g;
            for (size_t i = 0; i < h.size(); ++i) {
                // h is double: use steps that are exact in double
                double e = 1.0 / (1 << 13);
                V a = h, b = h, c = h, d = h;
                a[i] += e;
                b[i] -= e;
                c[i] += 2 * e;
                d[i] -= 2 * e;
                LD e1 = ((LD)a[i] - (LD)b[i]), e2 = ((LD)c[i] - (LD)d[i]);
                LD d1 = (f(a) - f(b)) / e1, d2 = (f(c) - f(d)) / e2;
                g.push_back((double)((4 * d1 - d2) / 3));
            }
            return g;
        }
        V grad_loglik_kernel() const
        {
            return diff(kern.hp, [&](const V& h) { return loglik(h, mean.hp); });
        }
        V grad_loo_kernel() const
        {
            return diff(kern.hp, [&](const V& h) { return loo(h, mean.hp); });
        }
        V grad_loglik_mean() const
        {
            return diff(mean.hp, [&](const V& h) { return loglik(kern.hp, h); });
        }
    };
} // namespace ref
#endif
