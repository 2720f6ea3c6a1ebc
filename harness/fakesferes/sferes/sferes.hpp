// A stand-in for sferes2 (not installed here): the individuals of the last generation are chosen by a script, they
// are evaluated with the fitness given, and the Pareto front is that of their objectives.
#ifndef VERIF_FAKE_SFERES
#define VERIF_FAKE_SFERES
#include <boost/fusion/include/vector.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <functional>
#include <vector>
#define SFERES_CONST static constexpr
#define SFERES_FITNESS(Class, Parent)                                                 \
    template <typename Params = sferes::stc::_Params, typename Exact = sferes::stc::Itself> \
    class Class : public Parent<Params, Exact>
namespace sferes {
    namespace stc {
        struct _Params {
        };
        struct Itself {
        };
    } // namespace stc
    namespace gen {
        namespace evo_float {
            enum mutation_t { polynomial = 0,
                gaussian,
                uniform };
            enum cross_over_t { recombination = 0,
                sbx,
                no_cross_over };
        } // namespace evo_float
        template <int Size, typename Params>
        struct EvoFloat {
            static const int size_ = Size;
            std::vector<float> v;
            EvoFloat() : v(Size, 0) {}
            size_t size() const { return v.size(); }
            float data(size_t i) const { return v[i]; }
        };
    } // namespace gen
    namespace fit {
        template <typename Params, typename Exact>
        class Fitness {
        public:
            const std::vector<float>& objs() const { return _objs; }
            float obj(size_t i) const { return _objs[i]; }
            float value() const { return _value; }

        protected:
            float _value = 0;
            std::vector<float> _objs;
        };
        struct compare_objs_lex {
            template <typename I>
            bool operator()(const I& a, const I& b) const
            {
                for (size_t i = 0; i < a->fit().objs().size(); ++i) {
                    if (a->fit().obj(i) > b->fit().obj(i))
                        return true;
                    if (a->fit().obj(i) < b->fit().obj(i))
                        return false;
                }
                return false;
            }
        };
    } // namespace fit
    namespace phen {
        template <typename Gen, typename Fit, typename Params>
        struct Parameters {
            Gen g;
            Fit f;
            std::vector<float> p;
            Fit& fit() { return f; }
            const Fit& fit() const { return f; }
            size_t size() const { return p.size(); }
            float data(size_t i) const { return p[i]; }
            void develop()
            {
                p.resize(g.size());
                for (size_t i = 0; i < p.size(); ++i)
                    p[i] = g.data(i) * (Params::parameters::max - Params::parameters::min) + Params::parameters::min;
            }
        };
    } // namespace phen
    namespace eval {
        template <typename Params>
        struct Parallel {
        };
    } // namespace eval
    namespace modif {
        template <typename = void>
        struct Dummy {
        };
    } // namespace modif
    // the genomes of the last generation
    inline std::function<std::vector<std::vector<float>>(size_t)>& script()
    {
        static std::function<std::vector<std::vector<float>>(size_t)> s;
        return s;
    }
    // told the objectives of every individual, and which are on the front
    inline std::function<void(const std::vector<float>&, const std::vector<float>&, bool)>& listener()
    {
        static std::function<void(const std::vector<float>&, const std::vector<float>&, bool)> s;
        return s;
    }
    namespace ea {
        template <typename Phen, typename Eval, typename Stat, typename Modifier, typename Params>
        struct Nsga2 {
            typedef boost::shared_ptr<Phen> indiv_t;
            typedef decltype(Phen().f) fit_t;
            fit_t proto;
            std::vector<indiv_t> pop;
            void set_fit_proto(const fit_t& f) { proto = f; }
            void run()
            {
                pop.clear();
                for (auto& g : script()(Phen().g.size())) {
                    indiv_t i(new Phen);
                    i->g.v = g;
                    i->develop();
                    i->f = proto;
                    i->f.eval(*i);
                    pop.push_back(i);
                }
                for (auto& i : pop)
                    listener()(i->p, i->f.objs(), on_front(i));
            }
            bool on_front(const indiv_t& i) const
            {
                for (auto& j : pop) {
                    bool ge = true, gt = false;
                    for (size_t k = 0; k < i->f.objs().size(); ++k) {
                        ge = ge && j->f.obj(k) >= i->f.obj(k);
                        gt = gt || j->f.obj(k) > i->f.obj(k);
                    }
                    if (ge && gt)
                        return false;
                }
                return true;
            }
            std::vector<indiv_t> pareto_front() const
            {
                std::vector<indiv_t> r;
                for (auto& i : pop)
                    if (on_front(i))
                        r.push_back(i);
                return r;
            }
        };
    } // namespace ea
} // namespace sferes
#endif
