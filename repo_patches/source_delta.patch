From 92f3f6187713c5e657fcde927ee758d88a94f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:35 +0000
Subject: [PATCH 01/49] fix: MultiGP::recompute(true, false) left the
 predictions on the previous mean

---
 src/limbo/model/multi_gp.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 22bf26e..0dabdf1 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -257,8 +257,14 @@ namespace limbo {
                 if (_gp_models.size() == 0)
                     return;
 
-                if (update_obs_mean) // if the mean is updated, we need to fully re-compute
-                    return compute(_gp_models[0].samples(), _observations, update_full_kernel);
+                if (update_obs_mean) { // if the mean is updated, we need to fully re-compute
+                    compute(_gp_models[0].samples(), _observations, update_full_kernel);
+                    // if the kernels are not re-computed, the GPs still need to take the new observations into account
+                    if (!update_full_kernel)
+                        limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
+                            _gp_models[i].recompute(false, false);
+                        });
+                }
                 else
                     limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                         _gp_models[i].recompute(false, update_full_kernel);
-- 
2.43.0


From e7735a299b59e9504b5451bea014b34c564f466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 02/49] fix: MultiGP::add_sample kept the old mean of the data
 in the observations of previous samples

---
 src/limbo/model/multi_gp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 0dabdf1..6fc9c1f 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -172,6 +172,11 @@ namespace limbo {
                 limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                     _gp_models[i].add_sample(sample, limbo::tools::make_vector(observation[i] - mean_vector[i]));
                 });
+
+                // the mean function might depend on the data, so that the observations of the previous samples have to be
+                // centered again (this is not possible if the GPs have discarded some of them)
+                if (_gp_models[0].nb_samples() == (int)_observations.size())
+                    this->recompute(true, false);
             }
 
             /**
-- 
2.43.0


From 722aa26b50db081e869a567b932cc4ea1dd1b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:21 +0000
Subject: [PATCH 03/49] fix: SparsifiedGP read past the neighbors when there
 are more dimensions than neighbors

---
 src/limbo/model/sparsified_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 7538fcc..85d3431 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -125,6 +125,9 @@ namespace limbo {
             /// the (pre)computed distance between the ith and the jth samples
             int _get_most_dense_point(int D, int N, const Eigen::MatrixXd& distances) const
             {
+                // there are only N-1 neighbors
+                D = std::min(D, N - 1);
+
                 std::mutex update_mutex;
                 double min_dist = std::numeric_limits<double>::max();
                 int denser = -1;
-- 
2.43.0


From a1f93a740a6554692d967659bec7a35e007d3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:21 +0000
Subject: [PATCH 04/49] fix: SparsifiedGP kept different points depending on
 the thread schedule in case of ties

---
 src/limbo/model/sparsified_gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 85d3431..8a92bd1 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -146,7 +146,8 @@ namespace limbo {
                     }
 
                     update_mutex.lock();
-                    if (dist < min_dist) {
+                    // ties are broken by index so that the result does not depend on the order of the threads
+                    if (dist < min_dist || (dist == min_dist && (int)i < denser)) {
                         min_dist = dist;
                         denser = i;
                     }
-- 
2.43.0


From 2156dc1ac6a1f1149b326ac94fd8ce290928140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:13 +0000
Subject: [PATCH 05/49] fix: loading a GP without recomputing left its scores
 and gradients on stale data

---
 src/limbo/model/gp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..4c80434 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -507,6 +507,11 @@ namespace limbo {
                 else {
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+
+                    // the centered observations are not saved and the inverse kernel
+                    // (if any) belongs to what the GP was before loading
+                    this->_compute_obs_mean();
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From 3cfa88318d88b28ae07effe618a51eb94811d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:13 +0000
Subject: [PATCH 06/49] fix: text archives did not restore numbers exactly (or
 at all for subnormal numbers)

---
 src/limbo/serialize/text_archive.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..c56ddb5 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -47,7 +47,9 @@
 #define LIMBO_SERIALIZE_TEXT_ARCHIVE_HPP
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -63,7 +65,7 @@ namespace limbo {
         class TextArchive {
         public:
             TextArchive(const std::string& dir_name) : _dir_name(dir_name),
-                                                       _fmt(Eigen::FullPrecision, Eigen::DontAlignCols, " ", "\n", "", "") {}
+                                                       _fmt(std::numeric_limits<double>::max_digits10, Eigen::DontAlignCols, " ", "\n", "", "") {}
 
             /// write an Eigen::Matrix*
             void save(const Eigen::MatrixXd& v, const std::string& object_name) const
@@ -142,7 +144,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr)); // std::stod throws for subnormal numbers
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From db57fc78b5e0063df3ec86322568b66603ea12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:31 +0000
Subject: [PATCH 07/49] fix: resuming a run with no iteration yet repeated the
 initialisation

---
 src/limbo/bayes_opt/bo_base.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..a166551 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -202,7 +202,7 @@ namespace limbo {
             using stat_t = typename boost::mpl::if_<boost::fusion::traits::is_sequence<Stat>, Stat, boost::fusion::vector<Stat>>::type;
 
             /// default constructor
-            BoBase() : _total_iterations(0) { _make_res_dir(); }
+            BoBase() : _total_iterations(0), _initialized(false) { _make_res_dir(); }
 
             /// copy is disabled (dangerous and useless)
             BoBase(const BoBase& other) = delete;
@@ -251,12 +251,15 @@ namespace limbo {
                 this->_current_iteration = 0;
                 if (reset) {
                     this->_total_iterations = 0;
+                    this->_initialized = false;
                     this->_samples.clear();
                     this->_observations.clear();
                 }
 
-                if (this->_total_iterations == 0)
+                if (!this->_initialized) {
                     init_function_t()(seval, afun, *this);
+                    this->_initialized = true;
+                }
             }
 
             template <typename BO, typename AggregatorFunction>
@@ -285,6 +288,7 @@ namespace limbo {
             std::string _res_dir;
             int _current_iteration;
             int _total_iterations;
+            bool _initialized;
             stopping_criteria_t _stopping_criteria;
             stat_t _stat;
 
-- 
2.43.0


From 3f904a673c8fd003219d9b89c8dfb1eccfcd063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:21 +0000
Subject: [PATCH 08/49] fix: grid search left the unit cube for some numbers of
 bins and returned garbage if all values are -inf

---
 src/limbo/opt/grid_search.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..820f748 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -84,16 +84,17 @@ namespace limbo {
             Eigen::VectorXd _inner_search(const F& f, size_t depth, const Eigen::VectorXd& current) const
             {
                 size_t dim = current.size();
-                double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
-                double best_fit = -std::numeric_limits<double>::max();
-                Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                int bins = Params::opt_gridsearch::bins();
+                double best_fit = -std::numeric_limits<double>::infinity();
+                Eigen::VectorXd current_result;
+                for (int i = 0; i <= bins; i++) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
+                    new_point[depth] = i / (double)bins;
                     double val;
                     if (depth == dim - 1) {
                         val = eval(f, new_point);
+                        if (i == 0) // all the values may be -inf
+                            current_result = new_point;
                         if (val > best_fit) {
                             best_fit = val;
                             current_result = new_point;
@@ -102,6 +103,8 @@ namespace limbo {
                     else {
                         Eigen::VectorXd temp_result = _inner_search(f, depth + 1, new_point);
                         val = eval(f, temp_result);
+                        if (i == 0)
+                            current_result = temp_result;
                         if (val > best_fit) {
                             best_fit = val;
                             current_result = temp_result;
-- 
2.43.0


From 6c121894bf32eaab97f10ba08cb5178e92065b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:21 +0000
Subject: [PATCH 09/49] fix: the restarts of the parallel repeater could start
 outside the bounds, and very low results were ignored

---
 src/limbo/opt/parallel_repeater.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index a3eebf8..8520d4e 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -47,6 +47,7 @@
 #define LIMBO_OPT_PARALLEL_REPEATER_HPP
 
 #include <algorithm>
+#include <limits>
 
 #include <Eigen/Core>
 
@@ -86,7 +87,10 @@ namespace limbo {
                 auto body = [&](int i) {
                     // clang-format off
                     Eigen::VectorXd r_deviation = tools::random_vector(init.size()).array() * 2. * Params::opt_parallelrepeater::epsilon() - Params::opt_parallelrepeater::epsilon();
-                    Eigen::VectorXd v = Optimizer()(f, init + r_deviation, bounded);
+                    Eigen::VectorXd start = init + r_deviation;
+                    if (bounded)
+                        start = start.cwiseMax(0.).cwiseMin(1.).eval();
+                    Eigen::VectorXd v = Optimizer()(f, start, bounded);
                     double val = opt::eval(f, v);
 
                     return std::make_pair(v, val);
@@ -99,7 +103,7 @@ namespace limbo {
                     // clang-format on
                 };
 
-                pair_t init_v = std::make_pair(init, -std::numeric_limits<float>::max());
+                pair_t init_v = std::make_pair(init, -std::numeric_limits<double>::infinity());
                 auto m = tools::par::max(init_v, Params::opt_parallelrepeater::repeats(), body, comp);
 
                 return m.first;
-- 
2.43.0


From ee6f54de57ff47904efee93ee1646136ed92ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:14 +0000
Subject: [PATCH 10/49] fix: an NLOpt optimiser kept the bounds and the
 dimension of its first use

---
 src/limbo/opt/nlopt_base.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..375339e 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,7 @@
 #else
 #include <Eigen/Core>
 
+#include <cmath>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -77,7 +78,7 @@ namespace limbo {
             Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded)
             {
                 int dim = init.size();
-                if (!_initialized)
+                if (!_initialized || (int)_opt.get_dimension() != dim)
                     initialize(dim);
 
                 _opt.set_max_objective(nlopt_func<F>, (void*)&f);
@@ -89,6 +90,10 @@ namespace limbo {
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
                 }
+                else { // the previous call might have been bounded
+                    _opt.set_lower_bounds(-HUGE_VAL);
+                    _opt.set_upper_bounds(HUGE_VAL);
+                }
 
                 double max;
 
-- 
2.43.0


From f99d44849e0f18113e3a989230a9033873840a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:19 +0000
Subject: [PATCH 11/49] fix: GP-UCB was not a number in the first iteration

---
 src/limbo/acqui/gp_ucb.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/limbo/acqui/gp_ucb.hpp b/src/limbo/acqui/gp_ucb.hpp
index 2c10f50..e7ad59a 100644
--- a/src/limbo/acqui/gp_ucb.hpp
+++ b/src/limbo/acqui/gp_ucb.hpp
@@ -46,6 +46,9 @@
 #ifndef LIMBO_ACQUI_GP_UCB_HPP
 #define LIMBO_ACQUI_GP_UCB_HPP
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Core>
 
 #include <limbo/opt/optimizer.hpp>
@@ -82,7 +85,7 @@ namespace limbo {
         public:
             GP_UCB(const Model& model, int iteration) : _model(model)
             {
-                double nt = std::pow(iteration, dim_in() / 2.0 + 2.0);
+                double nt = std::pow(std::max(1, iteration), dim_in() / 2.0 + 2.0); // the weight is not defined for 0
                 static constexpr double delta3 = Params::acqui_gpucb::delta() * 3;
                 static constexpr double pi2 = M_PI * M_PI;
                 _beta = std::sqrt(2.0 * std::log(nt * pi2 / delta3));
-- 
2.43.0


From 80ae88a5991cf9ff88ecb3ec4dfae811bae1dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 12/49] fix: grid sampling left out the last nodes for some
 numbers of bins

---
 src/limbo/init/grid_sampling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..013d645 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,9 +80,11 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                // accumulating the step could leave out the last node because of rounding errors
+                const int bins = Params::init_gridsampling::bins();
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         opt.eval_and_add(seval, point);
                     }
-- 
2.43.0


From 089170cc602380b4f6c9a54a59202f7cef68007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:34 +0000
Subject: [PATCH 13/49] fix: the likelihood statistic called a function that
 does not exist

---
 src/limbo/stat/gp_likelihood.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index c60dcd2..cb5fc05 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,9 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_lik() << std::endl;
+                // the likelihood stored in the model can be older than its data, so it is computed (in a copy, because the model is const)
+                auto model = bo.model();
+                (*this->_log_file) << bo.total_iterations() << " " << model.compute_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From 2890d1fa6ea1a1db15caab142e1dff4fb389d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:34 +0000
Subject: [PATCH 14/49] fix: the model statistic left out the last nodes for
 some numbers of bins

---
 src/limbo/stat/gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index b952dab..fb406a0 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -76,9 +76,11 @@ namespace limbo {
                 const BO& bo, const AggregatorFunction& afun,
                 const Eigen::VectorXd& current) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::stat_gp::bins()) {
+                // accumulating the step could leave out the last node because of rounding errors
+                const int bins = Params::stat_gp::bins();
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         auto q = bo.model().query(point);
                         double acqui = opt::fun(typename BO::acquisition_function_t(bo.model(), bo.current_iteration())(point, afun, false));
-- 
2.43.0


From 7b2f8eaa73344bcea5269252aad6cbff7e4eca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:31 +0000
Subject: [PATCH 15/49] fix: one of the policies was ignored when all six are
 given to BOptimizer

---
 src/limbo/bayes_opt/bo_base.hpp    | 4 +++-
 src/limbo/bayes_opt/boptimizer.hpp | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index a166551..7117314 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -115,6 +115,7 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
+    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
     namespace bayes_opt {
 
@@ -122,7 +123,8 @@ namespace limbo {
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
-            boost::parameter::optional<tag::modelfun>>;
+            boost::parameter::optional<tag::modelfun>,
+            boost::parameter::optional<tag::acquiopt>>; // not used here, but there must be a slot for every argument (the others would be ignored)
 
         // clang-format off
         template <class Params,
diff --git a/src/limbo/bayes_opt/boptimizer.hpp b/src/limbo/bayes_opt/boptimizer.hpp
index 4860d02..3733fd1 100644
--- a/src/limbo/bayes_opt/boptimizer.hpp
+++ b/src/limbo/bayes_opt/boptimizer.hpp
@@ -72,8 +72,6 @@ namespace limbo {
         };
     }
 
-    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
     namespace bayes_opt {
 
         using boptimizer_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
-- 
2.43.0


From 8f7d48f2ead90caed577a396484d21f86517ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 16/49] fix: the entropy of new random generators was updated
 by several threads without synchronisation

---
 src/external/rand_utils.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/external/rand_utils.hpp b/src/external/rand_utils.hpp
index 77fc779..2deecbf 100644
--- a/src/external/rand_utils.hpp
+++ b/src/external/rand_utils.hpp
@@ -93,6 +93,7 @@
 #include <cstdlib>
 #include <random>
 #include <array>
+#include <atomic>
 #include <functional> // for std::hash
 #include <initializer_list>
 #include <utility>
@@ -453,7 +454,7 @@ namespace randutils {
             // Some people think you shouldn't use the random device much because
             // on some platforms it could be expensive to call or "use up" vital
             // system-wide entropy, so we just call it once.
-            static uint32_t random_int = std::random_device{}();
+            static std::atomic<uint32_t> shared_int{std::random_device{}()};
 
             // The heap can vary from run to run as well.
             void* malloc_addr = malloc(sizeof(int));
@@ -461,9 +462,9 @@ namespace randutils {
             auto heap = hash(malloc_addr);
             auto stack = hash(&malloc_addr);
 
-            // Every call, we increment our random int.  We don't care about race
-            // conditons.  The more, the merrier.
-            random_int += 0xedf19156;
+            // Every call, we increment our random int (atomically: generators
+            // may be created by several threads at the same time).
+            uint32_t random_int = (shared_int += 0xedf19156);
 
             // Classic seed, the time.  It ought to change, especially since
             // this is (hopefully) nanosecond resolution time.
-- 
2.43.0


From 53a0eb38278b8d862bbac02a1004d9ed5730c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 17/49] fix: EI and ECI raced on the cached best observation
 when optimised in parallel

---
 src/limbo/acqui/ei.hpp               | 26 ++++++++++++++++++--------
 src/limbo/experimental/acqui/eci.hpp | 27 +++++++++++++++++++--------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/limbo/acqui/ei.hpp b/src/limbo/acqui/ei.hpp
index c868d6d..b68e371 100644
--- a/src/limbo/acqui/ei.hpp
+++ b/src/limbo/acqui/ei.hpp
@@ -48,6 +48,7 @@
 
 #include <Eigen/Core>
 #include <cmath>
+#include <mutex>
 #include <vector>
 
 #include <limbo/opt/optimizer.hpp>
@@ -77,6 +78,8 @@ namespace limbo {
         public:
             EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1) {}
 
+            EI(const EI& other) : _model(other._model), _nb_samples(-1) {}
+
             size_t dim_in() const { return _model.dim_in(); }
 
             size_t dim_out() const { return _model.dim_out(); }
@@ -97,17 +100,23 @@ namespace limbo {
 
                 // Compute EI(x)
                 // First find the best so far (predicted) observation -- if needed
-                if (_nb_samples != _model.nb_samples()) {
-                    std::vector<double> rewards;
-                    for (auto s : _model.samples()) {
-                        rewards.push_back(afun(_model.mu(s)));
-                    }
+                // (several threads can optimize the same acquisition function)
+                double f_max;
+                {
+                    std::lock_guard<std::mutex> lock(_f_max_mutex);
+                    if (_nb_samples != _model.nb_samples()) {
+                        std::vector<double> rewards;
+                        for (auto s : _model.samples()) {
+                            rewards.push_back(afun(_model.mu(s)));
+                        }
 
-                    _nb_samples = _model.nb_samples();
-                    _f_max = *std::max_element(rewards.begin(), rewards.end());
+                        _nb_samples = _model.nb_samples();
+                        _f_max = *std::max_element(rewards.begin(), rewards.end());
+                    }
+                    f_max = _f_max;
                 }
                 // Calculate Z and \Phi(Z) and \phi(Z)
-                double X = afun(mu) - _f_max - Params::acqui_ei::jitter();
+                double X = afun(mu) - f_max - Params::acqui_ei::jitter();
                 double Z = X / sigma;
                 double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                 double Phi = 0.5 * std::erfc(-Z / std::sqrt(2)); //0.5 * (1.0 + std::erf(Z / std::sqrt(2)));
@@ -119,6 +128,7 @@ namespace limbo {
             const Model& _model;
             int _nb_samples;
             double _f_max;
+            std::mutex _f_max_mutex;
         };
     }
 }
diff --git a/src/limbo/experimental/acqui/eci.hpp b/src/limbo/experimental/acqui/eci.hpp
index 14cb123..1c050fe 100644
--- a/src/limbo/experimental/acqui/eci.hpp
+++ b/src/limbo/experimental/acqui/eci.hpp
@@ -48,6 +48,7 @@
 
 #include <Eigen/Core>
 #include <cmath>
+#include <mutex>
 #include <vector>
 
 #include <limbo/tools/macros.hpp>
@@ -68,6 +69,9 @@ namespace limbo {
                 ECI(const Model& model, const ConstraintModel& constraint_model, int iteration = 0)
                     : _model(model), _constraint_model(constraint_model), _nb_samples(-1) {}
 
+                ECI(const ECI& other)
+                    : _model(other._model), _constraint_model(other._constraint_model), _nb_samples(-1) {}
+
                 size_t dim_in() const { return _model.dim_in(); }
 
                 size_t dim_out() const { return _model.dim_out(); }
@@ -88,17 +92,23 @@ namespace limbo {
 
                     // Compute expected constrained improvement
                     // First find the best (predicted) observation so far -- if needed
-                    if (_nb_samples != _model.nb_samples()) {
-                        std::vector<double> rewards;
-                        for (auto s : _model.samples()) {
-                            rewards.push_back(afun(_model.mu(s)));
+                    // (several threads can optimize the same acquisition function)
+                    double f_max;
+                    {
+                        std::lock_guard<std::mutex> lock(_f_max_mutex);
+                        if (_nb_samples != _model.nb_samples()) {
+                            std::vector<double> rewards;
+                            for (auto s : _model.samples()) {
+                                rewards.push_back(afun(_model.mu(s)));
+                            }
+
+                            _nb_samples = _model.nb_samples();
+                            _f_max = *std::max_element(rewards.begin(), rewards.end());
                         }
-
-                        _nb_samples = _model.nb_samples();
-                        _f_max = *std::max_element(rewards.begin(), rewards.end());
+                        f_max = _f_max;
                     }
                     // Calculate Z and \Phi(Z) and \phi(Z)
-                    double X = afun(mu) - _f_max - Params::acqui_eci::jitter();
+                    double X = afun(mu) - f_max - Params::acqui_eci::jitter();
                     double Z = X / sigma;
                     double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                     double Phi = 0.5 * std::erfc(-Z / std::sqrt(2));
@@ -111,6 +121,7 @@ namespace limbo {
                 const ConstraintModel& _constraint_model;
                 int _nb_samples;
                 double _f_max;
+                std::mutex _f_max_mutex;
 
                 template <typename AggregatorFunction>
                 double _pf(const Eigen::VectorXd& v, const AggregatorFunction& afun) const
-- 
2.43.0


From 3c056658e91cd53952a7c4b672d31212508f6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:12 +0000
Subject: [PATCH 18/49] fix: the parallel optimisations of EHVI shared one
 optimiser

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index d9e4edb..73ef7cf 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -104,8 +104,6 @@ namespace limbo {
                 {
                     this->_init(feval, FirstElem(), reset);
 
-                    acqui_optimizer_t inner_opt;
-
                     while (this->_samples.size() == 0 || !this->_stop(*this, FirstElem())) {
                         this->template update_pareto_model<EvalFunction::dim_in()>();
                         this->update_pareto_data();
@@ -134,6 +132,8 @@ namespace limbo {
                             auto acqui_optimization =
                                 [&](const Eigen::VectorXd& x, bool g) { return opt::no_grad(acqui(x)); };
 
+                            // bodies run in parallel: one optimizer each
+                            acqui_optimizer_t inner_opt;
                             Eigen::VectorXd s = inner_opt(acqui_optimization, std::get<0>(x), true);
                             double hv = acqui(s);
 
-- 
2.43.0


From 93fb4947dadebd5ccd59d925616c4110236f4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 19/49] fix: a seeded normal generator first returned a value
 drawn before it was seeded

---
 src/limbo/tools/random_generator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/limbo/tools/random_generator.hpp b/src/limbo/tools/random_generator.hpp
index e44edbd..fb2b453 100644
--- a/src/limbo/tools/random_generator.hpp
+++ b/src/limbo/tools/random_generator.hpp
@@ -77,6 +77,7 @@ namespace limbo {
 
             void seed(int seed = -1)
             {
+                _dist.reset(); // a distribution may keep a value drawn before
                 if (seed >= 0)
                     _rgen.seed(seed);
                 else
-- 
2.43.0


From 421e8b7d4181f9e7c9efb4228d1b48bd8d2a0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 20/49] fix: the hypervolume statistic counted observations
 beyond the reference point with negative sides

---
 src/limbo/experimental/stat/hyper_volume.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/stat/hyper_volume.hpp b/src/limbo/experimental/stat/hyper_volume.hpp
index edd219b..9981484 100644
--- a/src/limbo/experimental/stat/hyper_volume.hpp
+++ b/src/limbo/experimental/stat/hyper_volume.hpp
@@ -46,6 +46,8 @@
 #ifndef LIMBO_STAT_HYPER_VOLUME_HPP
 #define LIMBO_STAT_HYPER_VOLUME_HPP
 
+#include <algorithm>
+
 #include <hv/hypervol.h>
 #include <limbo/experimental/tools/pareto.hpp>
 #include <limbo/stat/stat_base.hpp>
@@ -73,8 +75,8 @@ namespace limbo {
                     for (size_t i = 0; i < bo.observations().size(); ++i) {
                         size_t dim = bo.observations()[i].size();
                         data[i] = new double[dim];
-                        for (size_t k = 0; k < dim; ++k)
-                            data[i][k] = bo.observations()[i](k) + Params::stat_hyper_volume::ref(k);
+                        for (size_t k = 0; k < dim; ++k) // nothing is dominated beyond the reference point
+                            data[i][k] = std::max(0.0, bo.observations()[i](k) + Params::stat_hyper_volume::ref(k));
                     }
                     // call the hypervolume by Zitzler
                     int noObjectives = bo.observations()[0].size();
-- 
2.43.0


From 3b7ae38dff4bd7ba24038b211c74ace5716bb3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 21/49] fix: EHVI used the variance as standard deviation

---
 src/limbo/experimental/acqui/ehvi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index fe73f82..f5fe8f7 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -46,6 +46,7 @@
 #ifndef LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 #define LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 
+#include <cmath>
 #include <vector>
 
 #include <Eigen/Core>
@@ -73,7 +74,8 @@ namespace limbo {
                 assert(_models.size() == 2);
                 double r[3] = {_ref_point(0), _ref_point(1), _ref_point(2)};
                 double mu[3] = {afun(_models[0].mu(v)), afun(_models[1].mu(v)), 0};
-                double s[3] = {_models[0].sigma(v), _models[1].sigma(v), 0};
+                // models return variances, ehvi2d needs standard deviations
+                double s[3] = {std::sqrt(_models[0].sigma(v)), std::sqrt(_models[1].sigma(v)), 0};
                 double ehvi = ehvi2d(_pop, r, mu, s);
                 return ehvi;
             }
-- 
2.43.0


From 870190357baff1c137e0d607b4b308a902a7a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 22/49] fix: the constrained optimizer trained its models on
 stale observations

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..c1658d0 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -178,6 +178,8 @@ namespace limbo {
 
                         this->_update_stats(*this, afun);
 
+                        // (after the statistics, which may ask for the best observation)
+                        _split_observations();
                         _model.add_sample(this->_samples.back(), _obs[0].back());
                         if (_nb_constraints > 0)
                             _constraint_model.add_sample(this->_samples.back(), _obs[1].back());
-- 
2.43.0


From 8514abe522337e9ed4d44ad99758f6ee98b63de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 23/49] fix: the best sample of the constrained optimizer was
 not that of the best feasible observation

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index c1658d0..f4b9328 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -203,14 +203,7 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return _obs[0][std::distance(rewards.begin(), max_e)];
+                    return _obs[0][_best_index(afun)];
                 }
 
                 /// return the best sample so far (i.e. the argmax(f(x)))
@@ -220,14 +213,7 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    return this->_samples[_best_index(afun)];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -239,17 +225,34 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                // the indices of the feasible observations (all the constraints are positive)
+                std::vector<size_t> _feasible_observations() const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
+                    std::vector<size_t> feasible_obs;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
+                        if (_nb_constraints == 0 || (_obs[1][i].array() > 0).all())
+                            feasible_obs.push_back(i);
                     }
 
                     return feasible_obs;
                 }
 
+                // the index of the best feasible observation (of the best observation if none is feasible)
+                template <typename AggregatorFunction>
+                size_t _best_index(const AggregatorFunction& afun) const
+                {
+                    std::vector<size_t> candidates = _feasible_observations();
+                    if (candidates.empty()) {
+                        for (size_t i = 0; i < _obs[0].size(); ++i)
+                            candidates.push_back(i);
+                    }
+
+                    auto rewards = std::vector<double>(candidates.size());
+                    std::transform(candidates.begin(), candidates.end(), rewards.begin(), [&](size_t i) { return afun(_obs[0][i]); });
+                    auto max_e = std::max_element(rewards.begin(), rewards.end());
+                    return candidates[std::distance(rewards.begin(), max_e)];
+                }
+
                 void _split_observations() const
                 {
                     _obs.clear();
-- 
2.43.0


From 84da1f2156bca21e9d3897881376bb0be6d4fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 24/49] fix: ECI applied the aggregation of the objectives to
 the constraints, and used the first one only

---
 src/limbo/experimental/acqui/eci.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/limbo/experimental/acqui/eci.hpp b/src/limbo/experimental/acqui/eci.hpp
index 1c050fe..c8ae622 100644
--- a/src/limbo/experimental/acqui/eci.hpp
+++ b/src/limbo/experimental/acqui/eci.hpp
@@ -113,7 +113,7 @@ namespace limbo {
                     double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                     double Phi = 0.5 * std::erfc(-Z / std::sqrt(2));
 
-                    return opt::no_grad(_pf(v, afun) * (X * Phi + sigma * phi));
+                    return opt::no_grad(_pf(v) * (X * Phi + sigma * phi));
                 }
 
             protected:
@@ -123,21 +123,27 @@ namespace limbo {
                 double _f_max;
                 std::mutex _f_max_mutex;
 
-                template <typename AggregatorFunction>
-                double _pf(const Eigen::VectorXd& v, const AggregatorFunction& afun) const
+                // probability that all the constraints are satisfied (the constraints are not aggregated like the objectives)
+                double _pf(const Eigen::VectorXd& v) const
                 {
+                    if (_constraint_model.samples().size() < 1)
+                        return 1.0;
+
                     Eigen::VectorXd mu;
                     double sigma_sq;
                     std::tie(mu, sigma_sq) = _constraint_model.query(v);
                     double sigma = std::sqrt(sigma_sq);
 
-                    if (sigma < 1e-10 || _constraint_model.samples().size() < 1)
+                    if (sigma < 1e-10)
                         return 1.0;
 
-                    double Z = (afun(mu) - 1.0) / sigma;
-                    double Phi = 0.5 * std::erfc(-Z / std::sqrt(2));
+                    double pf = 1.0;
+                    for (int i = 0; i < mu.size(); ++i) {
+                        double Z = (mu(i) - 1.0) / sigma;
+                        pf *= 0.5 * std::erfc(-Z / std::sqrt(2));
+                    }
 
-                    return Phi;
+                    return pf;
                 }
             };
         }
-- 
2.43.0


From 40095d120af3a6fc716956142eef650291da3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:17 +0000
Subject: [PATCH 25/49] fix: asking the constrained optimizer for its best
 invalidated the previous answer, and failed before the model exists

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index f4b9328..ed0b288 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -197,10 +197,10 @@ namespace limbo {
                 }
 
                 /// return the best observation so far (i.e. max(f(x)))
+                /// (by value: the observations of the objective are not stored separately)
                 template <typename AggregatorFunction = FirstElem>
-                const Eigen::VectorXd& best_observation(const AggregatorFunction& afun = AggregatorFunction()) const
+                Eigen::VectorXd best_observation(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
-                    _dim_out = _model.dim_out();
                     _split_observations();
 
                     return _obs[0][_best_index(afun)];
@@ -210,7 +210,6 @@ namespace limbo {
                 template <typename AggregatorFunction = FirstElem>
                 const Eigen::VectorXd& best_sample(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
-                    _dim_out = _model.dim_out();
                     _split_observations();
 
                     return this->_samples[_best_index(afun)];
@@ -222,7 +221,7 @@ namespace limbo {
                 constraint_model_t _constraint_model;
 
                 size_t _nb_constraints;
-                mutable size_t _dim_out;
+                size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
                 // the indices of the feasible observations (all the constraints are positive)
-- 
2.43.0


From 03f0496b0f601d684c8fe1d52199d68da1918c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:21 +0000
Subject: [PATCH 26/49] fix: the constrained optimizer ignored the seventh
 policy it was given

---
 src/limbo/bayes_opt/bo_base.hpp                  | 12 +++++++++---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp |  6 ++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index 7117314..d531d6b 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -117,6 +117,10 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
+    namespace experimental {
+        BOOST_PARAMETER_TEMPLATE_KEYWORD(constraint_modelfun)
+    }
+
     namespace bayes_opt {
 
         using bobase_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
@@ -124,7 +128,8 @@ namespace limbo {
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
             boost::parameter::optional<tag::modelfun>,
-            boost::parameter::optional<tag::acquiopt>>; // not used here, but there must be a slot for every argument (the others would be ignored)
+            boost::parameter::optional<tag::acquiopt>, // not used here, but there must be a slot for every argument (the others would be ignored)
+            boost::parameter::optional<experimental::tag::constraint_modelfun>>; // same
 
         // clang-format off
         template <class Params,
@@ -133,7 +138,8 @@ namespace limbo {
           class A3 = boost::parameter::void_,
           class A4 = boost::parameter::void_,
           class A5 = boost::parameter::void_,
-          class A6 = boost::parameter::void_>
+          class A6 = boost::parameter::void_,
+          class A7 = boost::parameter::void_>
         // clang-format on
         /**
         \rst
@@ -193,7 +199,7 @@ namespace limbo {
             };
 
             // extract the types
-            using args = typename bobase_signature::bind<A1, A2, A3, A4, A5, A6>::type;
+            using args = typename bobase_signature::bind<A1, A2, A3, A4, A5, A6, A7>::type;
             using init_function_t = typename boost::parameter::binding<args, tag::initfun, typename defaults::init_t>::type;
             using acquisition_function_t = typename boost::parameter::binding<args, tag::acquifun, typename defaults::acqui_t>::type;
             using model_t = typename boost::parameter::binding<args, tag::modelfun, typename defaults::model_t>::type;
diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index ed0b288..fe68350 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -74,8 +74,6 @@ namespace limbo {
     }
 
     namespace experimental {
-        BOOST_PARAMETER_TEMPLATE_KEYWORD(constraint_modelfun)
-
         namespace bayes_opt {
 
             using cboptimizer_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
@@ -117,7 +115,7 @@ namespace limbo {
           class A6 = boost::parameter::void_,
           class A7 = boost::parameter::void_>
             // clang-format on
-            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6> {
+            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6, A7> {
             public:
                 // defaults
                 struct defaults {
@@ -134,7 +132,7 @@ namespace limbo {
                     using constraint_model_t = limbo::model::GP<Params, kf_t, mean_t>;
                 };
                 /// link to the corresponding BoBase (useful for typedefs)
-                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6>;
+                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6, A7>;
                 using model_t = typename base_t::model_t;
 
                 using acquisition_function_t = typename base_t::acquisition_function_t;
-- 
2.43.0


From 780986ac7c01a2441348e30f9ba8e8d36d99ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 27/49] fix: Parego ignored parego_modelfun unless given first,
 and used a plain model if bo_multi.hpp was included before

---
 src/limbo/experimental/bayes_opt/parego.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/parego.hpp b/src/limbo/experimental/bayes_opt/parego.hpp
index 7b0ec27..f8394d4 100644
--- a/src/limbo/experimental/bayes_opt/parego.hpp
+++ b/src/limbo/experimental/bayes_opt/parego.hpp
@@ -59,7 +59,13 @@ namespace limbo {
 
             BOOST_PARAMETER_TEMPLATE_KEYWORD(parego_modelfun)
 
-            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>>;
+            // (there must be a slot for every argument, the others would be ignored)
+            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>>;
 
             // clang-format off
             template <class Params,
@@ -72,7 +78,7 @@ namespace limbo {
             // YOU NEED TO PASS A parego_modelfun and not a modelfun !
             class Parego : public limbo::bayes_opt::BOptimizer<
               Params,
-              modelfun<
+              limbo::modelfun< // (bo_multi.hpp defines another modelfun, which BOptimizer would ignore)
                   typename model::GPParego<Params,
                     typename boost::parameter::binding<
                          typename parego_signature::bind<A1, A2, A3, A4, A5>::type,
-- 
2.43.0


From 61b838b8f9cf875ddfd340673088a9d8239fb2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 28/49] fix: Ehvi ignored acquiopt (its own keyword hid the
 common one, and only the first argument was looked at)

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 73ef7cf..9218534 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -67,9 +67,15 @@ namespace limbo {
     namespace experimental {
         namespace bayes_opt {
 
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
+            using limbo::acquiopt;
 
-            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>>;
+            // (there must be a slot for every argument, the others would be ignored)
+            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
@@ -93,7 +99,7 @@ namespace limbo {
                 };
 
                 using args = typename ehvi_signature::bind<A1, A2, A3, A4, A5, A6>::type;
-                using acqui_optimizer_t = typename boost::parameter::binding<args, tag::acquiopt, typename defaults::acquiopt_t>::type;
+                using acqui_optimizer_t = typename boost::parameter::binding<args, limbo::tag::acquiopt, typename defaults::acquiopt_t>::type;
 
                 using pareto_point_t = std::tuple<Eigen::VectorXd, Eigen::VectorXd, Eigen::VectorXd>;
                 using base_t = limbo::experimental::bayes_opt::BoMulti<Params, A1, A2, A3, A4, A5, A6>;
-- 
2.43.0


From 81ad4d022fd75f476edda19e0c6ca0cbe929e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 29/49] fix: EHVI was wrong when a point of the front did not
 dominate the reference point

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 9218534..5535a23 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -117,6 +117,9 @@ namespace limbo {
                         // copy in the ehvi structure to compute expected improvement
                         std::deque<individual*> pop;
                         for (auto x : this->pareto_data()) {
+                            // the computation needs points that dominate the reference point (the others do not matter)
+                            if (std::get<1>(x)(0) <= Params::bayes_opt_ehvi::x_ref() || std::get<1>(x)(1) <= Params::bayes_opt_ehvi::y_ref())
+                                continue;
                             individual* ind = new individual;
                             ind->f[0] = std::get<1>(x)(0);
                             ind->f[1] = std::get<1>(x)(1);
-- 
2.43.0


From a19734ba2e4aa6996bbfcba5070de6c4934389e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 30/49] fix: after a run of Ehvi, the Pareto set and the models
 missed the last sample

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 5535a23..3df335e 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -168,6 +168,10 @@ namespace limbo {
                         this->_current_iteration++;
                         this->_total_iterations++;
                     }
+
+                    // the last sample too
+                    this->template update_pareto_model<EvalFunction::dim_in()>();
+                    this->update_pareto_data();
                 }
             };
         }
-- 
2.43.0


From 29613ceaaee271e2da8de3312704ad8a92c3b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 31/49] fix: Ehvi crashed without initial samples

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 3df335e..2e343a1 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -111,6 +111,12 @@ namespace limbo {
                     this->_init(feval, FirstElem(), reset);
 
                     while (this->_samples.size() == 0 || !this->_stop(*this, FirstElem())) {
+                        // nothing to model without any sample
+                        if (this->_samples.size() == 0) {
+                            _add(feval, tools::random_vector(EvalFunction::dim_in()));
+                            continue;
+                        }
+
                         this->template update_pareto_model<EvalFunction::dim_in()>();
                         this->update_pareto_data();
 
@@ -163,16 +169,23 @@ namespace limbo {
                             delete x;
 
                         // add sample
-                        this->add_new_sample(new_sample, feval(new_sample));
-                        this->_update_stats(*this, FirstElem());
-                        this->_current_iteration++;
-                        this->_total_iterations++;
+                        _add(feval, new_sample);
                     }
 
                     // the last sample too
                     this->template update_pareto_model<EvalFunction::dim_in()>();
                     this->update_pareto_data();
                 }
+
+            protected:
+                template <typename EvalFunction>
+                void _add(const EvalFunction& feval, const Eigen::VectorXd& new_sample)
+                {
+                    this->eval_and_add(feval, new_sample);
+                    this->_update_stats(*this, FirstElem());
+                    this->_current_iteration++;
+                    this->_total_iterations++;
+                }
             };
         }
     }
-- 
2.43.0


From 78c9a5438e77764e690b533817863a2b9a182beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 32/49] fix: the Pareto benchmark wrote files in the root
 directory when statistics are disabled

---
 src/limbo/experimental/stat/pareto_benchmark.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/stat/pareto_benchmark.hpp b/src/limbo/experimental/stat/pareto_benchmark.hpp
index a2b9315..addab9c 100644
--- a/src/limbo/experimental/stat/pareto_benchmark.hpp
+++ b/src/limbo/experimental/stat/pareto_benchmark.hpp
@@ -56,6 +56,9 @@ namespace limbo {
                 template <typename BO, typename AggregatorFunction>
                 void operator()(BO& opt, const AggregatorFunction& afun)
                 {
+                    if (!opt.stats_enabled() || opt.observations().empty())
+                        return;
+
                     opt.update_pareto_data();
 #ifndef NSBO // this is already done is NSBO
                     opt.template update_pareto_model<F::dim_in()>();
-- 
2.43.0


From 005b0f28ea94da6223e3ada1b382c25f7259a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 33/49] fix: IMGPO compared aggregated values with the first
 element of the observations

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 048257b..95c8c33 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -291,7 +291,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_g, fsample_g);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_g(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_g));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -330,7 +330,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_d, fsample_d);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_d(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_d));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -359,7 +359,7 @@ namespace limbo {
                                 _tree[h + 1].leaf.push_back(true);
 
                                 // update LB
-                                LB = afun(this->best_observation());
+                                LB = afun(this->best_observation(afun));
 
                                 // std::cout << t << " N= " << this->_current_iteration << " n= " << split_n << " fmax_hat= " << LB << " rho= " << rho_bar << " xi= " << xi_max << " h= " << depth_T << std::endl;
                             }
-- 
2.43.0


From 58eebb4ebd73c7a26ad1fefc2eb711db78283cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 34/49] fix: IMGPO kept the predicted value of the nodes it had
 evaluated

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 95c8c33..45b6f35 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -136,11 +136,13 @@ namespace limbo {
                                 break;
 
                             while (true) {
+                                double level_max = b_hi_max;
+                                i_max[h] = -1;
                                 for (size_t i = 0; i < _tree[h].x.size(); i++) {
                                     if (_tree[h].leaf[i] == true) {
                                         double b_hi = afun(_tree[h].f[i]);
-                                        if (b_hi > b_hi_max) {
-                                            b_hi_max = b_hi;
+                                        if (b_hi > level_max) {
+                                            level_max = b_hi;
                                             i_max[h] = i;
                                             b_max[h] = b_hi;
                                         }
@@ -150,12 +152,15 @@ namespace limbo {
                                     break;
 
                                 if (_tree[h].samp[i_max[h]] == true) {
+                                    b_hi_max = level_max;
                                     break;
                                 }
                                 else {
                                     Eigen::VectorXd xxx = _tree[h].x[i_max[h]];
 
                                     auto tmp_sample = sfun(xxx);
+                                    // the value of the node is now known: it replaces the prediction
+                                    _tree[h].f[i_max[h]] = tmp_sample;
                                     _tree[h].samp[i_max[h]] = true;
                                     this->add_new_sample(xxx, tmp_sample);
 
-- 
2.43.0


From 217b2bca81d94a6759d4c806f1ba7289c63da775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 35/49] fix: IMGPO used the nodes of the wrong level when
 looking ahead

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 45b6f35..3534803 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -195,9 +195,9 @@ namespace limbo {
                                     M2 = M;
                                     for (size_t h2 = h; h2 <= h + xi - 1; h2++) {
                                         for (size_t ii = 0; ii < std::pow(3, h2 - h); ii++) {
-                                            if (ii >= tmp_tree[h].x.size())
+                                            if (ii >= tmp_tree[h2].x.size())
                                                 break;
-                                            Eigen::VectorXd xx = tmp_tree[h].x[ii];
+                                            Eigen::VectorXd xx = tmp_tree[h2].x[ii];
                                             Eigen::VectorXd to_split = tmp_tree[h2].x_max[ii].array() - tmp_tree[h2].x_min[ii].array();
                                             size_t tmp, splitd;
                                             to_split.maxCoeff(&splitd, &tmp);
-- 
2.43.0


From d86850bf009f7edb4119d1137e3fb8259648efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 36/49] fix: resuming IMGPO evaluated the root again and forgot
 the depth of the tree

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 46 +++++++++++++---------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 3534803..50046e9 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -93,35 +93,43 @@ namespace limbo {
                 void optimize(const StateFunction& sfun, const AggregatorFunction& afun = AggregatorFunction(), bool reset = true)
                 {
                     this->_init(sfun, afun, reset);
-                    size_t h_upper = 1000;
-                    // Init tree
-                    if (this->_total_iterations == 0)
-                        _init_tree(h_upper);
-
                     // Init model
                     _model = model_t(StateFunction::dim_in(), StateFunction::dim_out());
 
-                    // Init root
-                    _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
-                    _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
-                    _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
-                    _tree[0].f.push_back(sfun(_tree[0].x[0]));
-                    _tree[0].leaf.push_back(true);
-                    _tree[0].samp.push_back(true);
-
-                    this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
-                    double LB = afun(_tree[0].f[0]);
                     double inf = std::numeric_limits<double>::infinity();
-
+                    double LB;
                     size_t depth_T = 0, M = 1;
+                    if (this->_total_iterations == 0) {
+                        // Init tree
+                        size_t h_upper = 1000;
+                        _init_tree(h_upper);
+
+                        // Init root
+                        _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
+                        _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
+                        _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
+                        _tree[0].f.push_back(sfun(_tree[0].x[0]));
+                        _tree[0].leaf.push_back(true);
+                        _tree[0].samp.push_back(true);
+
+                        this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
+                        LB = afun(_tree[0].f[0]);
+                        // N = N+1
+                        this->_current_iteration++;
+                        this->_total_iterations++;
+                    }
+                    else {
+                        // continue with the tree of the previous run
+                        while (!_tree[depth_T + 1].x.empty())
+                            depth_T++;
+                        LB = afun(this->best_observation(afun));
+                    }
+
                     double rho_avg = 0, rho_bar = 0;
                     size_t t = 0, XI_max = 4, split_n = 1;
                     int xi_max = 0;
                     double XI = 1;
                     double LB_old = LB;
-                    // N = N+1
-                    this->_current_iteration++;
-                    this->_total_iterations++;
 
                     while (this->_samples.size() == 0 || !this->_stop(*this, afun)) {
                         std::vector<int> i_max(depth_T + 1, -1);
-- 
2.43.0


From b43a87283fc6cf2699b50d6b242cf675caa604ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 37/49] fix: the model of IMGPO did not include the last
 evaluations

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 50046e9..5dd7cc1 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -389,6 +389,8 @@ namespace limbo {
                         LB_old = LB;
                     }
 
+                    // the model includes the last evaluations
+                    _model.compute(this->_samples, this->_observations);
                     if (Params::bayes_opt_imgpo::hp_opt())
                         _model.optimize_hyperparams();
                 }
-- 
2.43.0


From 913b42de9b9b17b4e3f9319b47dd94cd2680e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 38/49] fix: the variance of the pseudo-input model takes one
 point, whatever its dimension

sigma(v) passed the coordinates of the point as that many points.
---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 7c30585..4f3706e 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -227,7 +227,7 @@ namespace limbo {
 	  		*/
             double sigma(const Eigen::VectorXd& v) const
             {
-                return (_predict(v, false, true).second)(0, 0);
+                return (_predict(v.transpose(), false, true).second)(0, 0);
             }
             // TODO: Deberia machear la interfaz de la GP
             Eigen::VectorXd sigma_mult(const Eigen::MatrixXd& v) const
-- 
2.43.0


From bb4c166fbb30e3dbdc7f931122931c6624ae5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 39/49] fix: the pseudo-input model predicts with the
 parameters it has just optimised

optimize_hyperparams() kept the matrices of the previous parameters.
---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 4f3706e..1011165 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -125,7 +125,7 @@ namespace limbo {
             void optimize_hyperparams()
             {
                 _optimize_init = true;
-                _optimize_hyperparams();
+                _compute();
             }
 
             /// Compute the SPGP from samples and observations. This call needs to be explicit!
-- 
2.43.0


From e628b7e35e08a124bd158a01473389fe4ee89eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 40/49] fix: recompute() of the pseudo-input model takes a new
 mean function into account

---
 src/limbo/experimental/model/spgp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 1011165..ae21dd6 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -282,6 +282,8 @@ namespace limbo {
             ///  recomputes the SPGP
             void recompute(bool update_obs_mean = true)
             {
+                if (update_obs_mean)
+                    _compute_observations_zm();
                 _optimize_init = true;
                 _compute();
             }
-- 
2.43.0


From 4e95a729836b8ce5f3c8ddfead9a7605524c9cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 41/49] fix: initialise the jitter of the pseudo-input model

A model built by add_sample() only used it uninitialised.
---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index ae21dd6..d101d85 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -322,7 +322,7 @@ namespace limbo {
             size_t _m;
             size_t _dim_in = -1;
             size_t _dim_out = -1;
-            double _del;
+            double _del = Params::model_spgp::jitter();
             Eigen::MatrixXd _samples;
             Eigen::MatrixXd _observations;
             Eigen::MatrixXd _observations_zm;
-- 
2.43.0


From 677e7eb349ecca39e84ce16b62f7cd8c62a18a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 42/49] fix: no more pseudo-inputs than samples

The initialisation read rows beyond the samples.
---
 src/limbo/experimental/model/spgp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index d101d85..9c79c4f 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -384,8 +384,10 @@ namespace limbo {
             {
                 // NOTE: We could add the option to use a function to change the m dinamycally based on the samples.
                 _m = Params::model_spgp::samples_percent() * _samples.rows() / 100;
-                if (_m < Params::model_spgp::min_m())
+                if (_m < (size_t)Params::model_spgp::min_m())
                     _m = Params::model_spgp::min_m();
+                if (_m > (size_t)_samples.rows()) // pseudo-inputs start from distinct samples
+                    _m = _samples.rows();
             }
 
             void _compute(bool optimize = true)
-- 
2.43.0


From 2fa86ad162db31b5d21da103874bafec7683730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 43/49] fix: initial pseudo-inputs are training inputs in any
 dimension

They were stored row by row and read column by column.
---
 src/limbo/experimental/model/spgp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 9c79c4f..9b59f04 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -422,7 +422,8 @@ namespace limbo {
                     Eigen::VectorXd positions = Eigen::VectorXd::LinSpaced(_samples.rows(), 0, _samples.rows() - 1);
                     std::random_shuffle(positions.data(), positions.data() + positions.size());
                     for (size_t i = 0; i < _m; ++i)
-                        _w_init.segment(i * _dim_in, _dim_in) = _samples.row(positions[i]);
+                        for (size_t j = 0; j < _dim_in; ++j)
+                            _w_init[j * _m + i] = _samples((int)positions[i], (int)j); // column by column, as read by HyperParams
 
                     // Initialize hyperparameters sensibly in log space
                     _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-- 
2.43.0


From 390cb9ee0ce458ac1e82866fafb46ea9d9d1ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 44/49] fix: the pseudo-input model starts from finite
 parameters with data without spread

A single sample, or constant observations, gave infinite parameters.
---
 src/limbo/experimental/model/spgp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 9b59f04..6cced6d 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -426,9 +426,13 @@ namespace limbo {
                             _w_init[j * _m + i] = _samples((int)positions[i], (int)j); // column by column, as read by HyperParams
 
                     // Initialize hyperparameters sensibly in log space
-                    _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-                    _w_init[(_m + 1) * _dim_in] = std::log(_observations_zm.array().pow(2).mean());
-                    _w_init[(_m + 1) * _dim_in + 1] = std::log((_observations_zm.array().pow(2) / 4).mean());
+                    // (the default values when the data have no spread)
+                    Eigen::VectorXd range = _samples.colwise().maxCoeff() - _samples.colwise().minCoeff();
+                    for (size_t i = 0; i < _dim_in; ++i)
+                        _w_init[_m * _dim_in + i] = range[i] > 0 ? -2 * std::log(range[i] / 2) : std::log(Params::model_spgp::pred_kernel_l()); // -2*log((max(x)-min(x))'/2)
+                    double var = _observations_zm.array().pow(2).mean();
+                    _w_init[(_m + 1) * _dim_in] = std::log(var > 0 ? var : Params::model_spgp::pred_kernel_sigma_sq());
+                    _w_init[(_m + 1) * _dim_in + 1] = std::log(var > 0 ? var / 4 : Params::model_spgp::sig());
 
                     _optimize_init = false;
                 }
-- 
2.43.0


From 61ddbbd2a25c4ac714d03c87ca1601a01fb2c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 45/49] fix: integer division in the score of the pseudo-input
 model

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 6cced6d..9b1d4e5 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -497,7 +497,7 @@ namespace limbo {
                 Eigen::MatrixXd bet = invLmV * y;
 
                 // Calculate likelihood
-                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - _m) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
+                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - (double)_m) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
 
                 if (!eval_grad) {
                     if (inverse)
-- 
2.43.0


From cffc3f5960676b11bae9c78e3b7baf64a3ff6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 46/49] fix: each optimizer writes its statistics in a
 directory of its own

Two optimizers created in the same process within the same second shared one and overwrote each other's files.
---
 src/limbo/bayes_opt/bo_base.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index d531d6b..9749327 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -288,9 +288,11 @@ namespace limbo {
             {
                 if (!Params::bayes_opt_bobase::stats_enabled())
                     return;
-                _res_dir = tools::hostname() + "_" + tools::date() + "_" + tools::getpid();
-                boost::filesystem::path my_path(_res_dir);
-                boost::filesystem::create_directory(my_path);
+                const std::string name = tools::hostname() + "_" + tools::date() + "_" + tools::getpid();
+                _res_dir = name;
+                // each optimizer gets its own directory (several can be created within the same second)
+                for (int i = 1; !boost::filesystem::create_directory(boost::filesystem::path(_res_dir)); ++i)
+                    _res_dir = name + "_" + std::to_string(i);
             }
 
             std::string _res_dir;
-- 
2.43.0


From e1bf6121d9f6f512121ea3d0a4d43296bb195bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 47/49] fix: after a run of Nsbo, the Pareto set and the models
 missed the last sample

---
 src/limbo/experimental/bayes_opt/nsbo.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/nsbo.hpp b/src/limbo/experimental/bayes_opt/nsbo.hpp
index 71f5e8e..90ff482 100644
--- a/src/limbo/experimental/bayes_opt/nsbo.hpp
+++ b/src/limbo/experimental/bayes_opt/nsbo.hpp
@@ -94,6 +94,10 @@ namespace limbo {
                         this->_current_iteration++;
                         this->_total_iterations++;
                     }
+
+                    // the last sample too
+                    this->template update_pareto_model<EvalFunction::dim_in()>();
+                    this->update_pareto_data();
                 }
 
             protected:
-- 
2.43.0


From 1134c791b9e60d2caafa9ce2627319ac3aaa3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 48/49] fix: Nsbo crashed without initial samples

---
 src/limbo/experimental/bayes_opt/nsbo.hpp | 26 +++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/nsbo.hpp b/src/limbo/experimental/bayes_opt/nsbo.hpp
index 90ff482..a2b5dc3 100644
--- a/src/limbo/experimental/bayes_opt/nsbo.hpp
+++ b/src/limbo/experimental/bayes_opt/nsbo.hpp
@@ -72,6 +72,12 @@ namespace limbo {
                     this->_init(feval, FirstElem(), reset);
 
                     while (this->_samples.size() == 0 || !this->_stop(*this, FirstElem())) {
+                        // nothing to model without any sample
+                        if (this->_samples.size() == 0) {
+                            _add(feval, tools::random_vector(EvalFunction::dim_in()));
+                            continue;
+                        }
+
                         std::cout << "updating pareto model...";
                         std::cout.flush();
                         this->template update_pareto_model<EvalFunction::dim_in()>();
@@ -83,16 +89,14 @@ namespace limbo {
                         auto best = p_variance[rand() % p_variance.size()];
                         Eigen::VectorXd best_v = std::get<0>(best);
 
-                        this->add_new_sample(best_v, feval(best_v));
+                        this->eval_and_add(feval, best_v);
                         std::cout << this->_current_iteration << " | " << best_v.transpose() << "-> "
                                   << this->_observations.back().transpose()
                                   << " (expected:" << this->_models[0].mu(best_v) << " "
                                   << this->_models[1].mu(best_v) << ")"
                                   << " sigma:" << this->_models[0].sigma(best_v) << " "
                                   << this->_models[1].sigma(best_v) << std::endl;
-                        this->_update_stats(*this, FirstElem());
-                        this->_current_iteration++;
-                        this->_total_iterations++;
+                        _update();
                     }
 
                     // the last sample too
@@ -101,6 +105,20 @@ namespace limbo {
                 }
 
             protected:
+                template <typename EvalFunction>
+                void _add(const EvalFunction& feval, const Eigen::VectorXd& new_sample)
+                {
+                    this->eval_and_add(feval, new_sample);
+                    _update();
+                }
+
+                void _update()
+                {
+                    this->_update_stats(*this, FirstElem());
+                    this->_current_iteration++;
+                    this->_total_iterations++;
+                }
+
                 // former way to deal with the template of RefreshStat
                 // void _update_stats()
                 // {
-- 
2.43.0


From 61f5e03e81bb802bd22a30d1aa7d11238b7a376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:57 +0000
Subject: [PATCH 49/49] fix: IMGPO never updated the statistics it was given

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 5dd7cc1..87e459e 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -114,6 +114,8 @@ namespace limbo {
 
                         this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
                         LB = afun(_tree[0].f[0]);
+                        this->_update_stats(*this, afun);
+
                         // N = N+1
                         this->_current_iteration++;
                         this->_total_iterations++;
@@ -172,6 +174,8 @@ namespace limbo {
                                     _tree[h].samp[i_max[h]] = true;
                                     this->add_new_sample(xxx, tmp_sample);
 
+                                    this->_update_stats(*this, afun);
+
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
@@ -306,6 +310,8 @@ namespace limbo {
 
                                     b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_g));
 
+                                    this->_update_stats(*this, afun);
+
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
@@ -345,6 +351,8 @@ namespace limbo {
 
                                     b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_d));
 
+                                    this->_update_stats(*this, afun);
+
                                     // N = N+1
                                     this->_current_iteration++;
                                     this->_total_iterations++;
-- 
2.43.0

