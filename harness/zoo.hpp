// Limbo parameter sets, kernels and means under test, with their reference counterparts.
#ifndef VERIF_ZOO_HPP
#define VERIF_ZOO_HPP
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include "ref.hpp"

namespace zoo {
    // Noise in thousandths, optimise the noise?, columns of the low-rank factor
    template <int NOISE_MILLI, bool OPTN, int K>
    struct P {
        struct kernel {
            BO_PARAM(double, noise, NOISE_MILLI / 1000.0);
            BO_PARAM(bool, optimize_noise, OPTN);
        };
        struct kernel_exp {
            BO_PARAM(double, sigma_sq, 1.7);
            BO_PARAM(double, l, 0.6);
        };
        struct kernel_squared_exp_ard {
            BO_PARAM(int, k, K);
            BO_PARAM(double, sigma_sq, 1.3);
        };
        struct kernel_maternfivehalves {
            BO_PARAM(double, sigma_sq, 2.1);
            BO_PARAM(double, l, 0.8);
        };
        struct kernel_maternthreehalves {
            BO_PARAM(double, sigma_sq, 0.9);
            BO_PARAM(double, l, 1.2);
        };
        struct mean_constant {
            BO_PARAM(double, constant, 0.7);
        };
        static ref::Kernel base()
        {
            ref::Kernel k;
            k.noise0 = NOISE_MILLI / 1000.0;
            k.opt_noise = OPTN;
            return k;
        }
    };
    typedef P<20, false, 0> P0;
    typedef P<20, true, 0> PN;
    typedef P<20, false, 1> PK1;
    typedef P<20, true, 2> PK2N;

    template <typename Pm>
    struct KExp {
        typedef limbo::kernel::Exp<Pm> type;
        static ref::Kernel make()
        {
            ref::Kernel k = Pm::base();
            k.t = ref::EXP;
            k.sf0 = 1.7;
            k.l0 = 0.6;
            return k;
        }
    };
    template <typename Pm>
    struct KM52 {
        typedef limbo::kernel::MaternFiveHalves<Pm> type;
        static ref::Kernel make()
        {
            ref::Kernel k = Pm::base();
            k.t = ref::M52;
            k.sf0 = 2.1;
            k.l0 = 0.8;
            return k;
        }
    };
    template <typename Pm>
    struct KM32 {
        typedef limbo::kernel::MaternThreeHalves<Pm> type;
        static ref::Kernel make()
        {
            ref::Kernel k = Pm::base();
            k.t = ref::M32;
            k.sf0 = 0.9;
            k.l0 = 1.2;
            return k;
        }
    };
    template <typename Pm>
    struct KARD {
        typedef limbo::kernel::SquaredExpARD<Pm> type;
        static ref::Kernel make()
        {
            ref::Kernel k = Pm::base();
            k.t = ref::ARD;
            k.k = Pm::kernel_squared_exp_ard::k();
            k.sf0 = 1.3;
            return k;
        }
    };
    template <typename Pm>
    struct MNull {
        typedef limbo::mean::NullFunction<Pm> type;
        static ref::Mean make()
        {
            ref::Mean m;
            m.t = ref::NUL;
            return m;
        }
    };
    template <typename Pm>
    struct MConst {
        typedef limbo::mean::Constant<Pm> type;
        static ref::Mean make()
        {
            ref::Mean m;
            m.t = ref::CONST;
            m.c0 = 0.7;
            return m;
        }
    };
    template <typename Pm>
    struct MData {
        typedef limbo::mean::Data<Pm> type;
        static ref::Mean make()
        {
            ref::Mean m;
            m.t = ref::DATA;
            return m;
        }
    };
    template <typename Pm, template <typename> class In>
    struct MFArd {
        typedef limbo::mean::FunctionARD<Pm, typename In<Pm>::type> type;
        static ref::Mean make()
        {
            ref::Mean m = In<Pm>::make();
            m.inner = m.t;
            m.t = ref::FARD;
            return m;
        }
    };
    template <typename Pm>
    using MFArdC = MFArd<Pm, MConst>;
    template <typename Pm>
    using MFArdD = MFArd<Pm, MData>;
    template <typename Pm>
    using MFArdN = MFArd<Pm, MNull>;

    inline Eigen::VectorXd vec(const std::vector<double>& v)
    {
        Eigen::VectorXd r(v.size());
        for (size_t i = 0; i < v.size(); ++i)
            r[i] = v[i];
        return r;
    }
    inline std::vector<double> stdv(const Eigen::VectorXd& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
    // point i of an alphabet of well separated points in dimension d (some outside [0,1])
    inline Eigen::VectorXd point(int i, int d)
    {
        static const double base[10] = {0.1, 0.85, 0.45, -0.35, 1.3, 0.65, 0.25, 1.05, -0.1, 2.0};
        Eigen::VectorXd v(d);
        for (int k = 0; k < d; ++k)
            v[k] = base[(i * (k == 0 ? 1 : (k == 1 ? 3 : 7)) + 2 * k) % 10] + 0.01 * k;
        return v;
    }
    // observation j of an alphabet (mixed signs and magnitudes)
    inline Eigen::VectorXd obs(int j, int d)
    {
        static const double base[7] = {-1.5, 2.25, 0.0, 6.0, -0.25, 1.0, -4.0};
        Eigen::VectorXd v(d);
        for (int k = 0; k < d; ++k)
            v[k] = base[(j + 3 * k) % 7] + 0.5 * k;
        return v;
    }
    // j-th alternative for a parameter vector of length n (log space for kernels)
    inline Eigen::VectorXd params(int j, int n, double scale = 0.35)
    {
        static const double base[5] = {-0.6, 0.8, -1.0, 0.4, 1.1};
        Eigen::VectorXd v(n);
        for (int k = 0; k < n; ++k)
            v[k] = scale * base[(j * 2 + k) % 5];
        return v;
    }
    // kernel parameters with a moderate noise if it is optimised (keeps the matrix well conditioned)
    inline Eigen::VectorXd kparams(int j, const ref::Kernel& k)
    {
        Eigen::VectorXd v = params(j, k.size());
        if (k.opt_noise)
            v[v.size() - 1] = j % 2 ? -1.6 : -1.2;
        return v;
    }
    inline bool close(double a, ref::LD b, double tol)
    {
        if (!std::isfinite(a))
            return false;
        return std::fabs((ref::LD)a - b) <= tol;
    }
    inline std::string str(const Eigen::VectorXd& v)
    {
        std::string s = "(";
        for (int i = 0; i < v.size(); ++i) {
            char b[40];
            snprintf(b, sizeof b, "%s%.10g", i ? "," : "", v[i]);
            s += b;
        }
        return s + ")";
    }
} // namespace zoo
#endif
