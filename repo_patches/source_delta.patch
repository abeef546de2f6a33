From 9c7a6dee222129e7efadc003a1ec0476848f7db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 1/9] fix: BoBase ignored the last of six named template
 arguments (e.g. stopcrit) unless it was acquiopt

---
 src/limbo/bayes_opt/bo_base.hpp    | 4 +++-
 src/limbo/bayes_opt/boptimizer.hpp | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..a05701d 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -115,6 +115,7 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
+    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
     namespace bayes_opt {
 
@@ -122,7 +123,8 @@ namespace limbo {
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
-            boost::parameter::optional<tag::modelfun>>;
+            boost::parameter::optional<tag::modelfun>,
+            boost::parameter::optional<tag::acquiopt>>; // not used here, but it can be one of A1..A6
 
         // clang-format off
         template <class Params,
diff --git a/src/limbo/bayes_opt/boptimizer.hpp b/src/limbo/bayes_opt/boptimizer.hpp
index 4860d02..3733fd1 100644
--- a/src/limbo/bayes_opt/boptimizer.hpp
+++ b/src/limbo/bayes_opt/boptimizer.hpp
@@ -72,8 +72,6 @@ namespace limbo {
         };
     }
 
-    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
     namespace bayes_opt {
 
         using boptimizer_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
-- 
2.43.0


From 1cc137abef94595f27997b247d46eee39c538fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 2/9] fix: GridSearch evaluated points outside [0,1] for bin
 counts whose step accumulates rounding errors

---
 src/limbo/opt/grid_search.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..c6d97bd 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -84,13 +84,12 @@ namespace limbo {
             Eigen::VectorXd _inner_search(const F& f, size_t depth, const Eigen::VectorXd& current) const
             {
                 size_t dim = current.size();
-                double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
+                int bins = Params::opt_gridsearch::bins();
                 double best_fit = -std::numeric_limits<double>::max();
                 Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                for (int i = 0; i <= bins; i++) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
+                    new_point[depth] = (double)i / (double)bins;
                     double val;
                     if (depth == dim - 1) {
                         val = eval(f, new_point);
-- 
2.43.0


From 6f694f5d20f26647de877d6b20304eb482b3aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 3/9] fix: ParallelRepeater ignored candidates whose value is
 below -FLT_MAX

---
 src/limbo/opt/parallel_repeater.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index a3eebf8..1148039 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -99,7 +99,7 @@ namespace limbo {
                     // clang-format on
                 };
 
-                pair_t init_v = std::make_pair(init, -std::numeric_limits<float>::max());
+                pair_t init_v = std::make_pair(init, -std::numeric_limits<double>::max());
                 auto m = tools::par::max(init_v, Params::opt_parallelrepeater::repeats(), body, comp);
 
                 return m.first;
-- 
2.43.0


From d846d946c5ee63cbc6eac7d3f608e55084afa195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:23 +0000
Subject: [PATCH 4/9] fix: GridSampling missed the last grid line for bin
 counts whose step accumulates rounding errors (9, 11, 18, 20, ...)

---
 src/limbo/init/grid_sampling.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..8b8c41c 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,9 +80,10 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                int bins = Params::init_gridsampling::bins();
+                for (int i = 0; i <= bins; i++) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = (double)i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         opt.eval_and_add(seval, point);
                     }
-- 
2.43.0


From 0654360bda1057079322a51be622848b74239e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:18 +0000
Subject: [PATCH 5/9] fix: ParallelRepeater started bounded runs outside [0,1],
 and could return such a start as the result

---
 src/limbo/opt/parallel_repeater.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index 1148039..378b900 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -86,7 +86,10 @@ namespace limbo {
                 auto body = [&](int i) {
                     // clang-format off
                     Eigen::VectorXd r_deviation = tools::random_vector(init.size()).array() * 2. * Params::opt_parallelrepeater::epsilon() - Params::opt_parallelrepeater::epsilon();
-                    Eigen::VectorXd v = Optimizer()(f, init + r_deviation, bounded);
+                    Eigen::VectorXd start = init + r_deviation;
+                    if (bounded)
+                        start = start.cwiseMax(0.).cwiseMin(1.);
+                    Eigen::VectorXd v = Optimizer()(f, start, bounded);
                     double val = opt::eval(f, v);
 
                     return std::make_pair(v, val);
-- 
2.43.0


From fa43c0ba1ab04943982cb4bb7bd7d6166b960bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:28 +0000
Subject: [PATCH 6/9] fix: NLopt wrappers kept the bounds and the dimension of
 an earlier call

---
 src/limbo/opt/nlopt_base.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..c8b6ddc 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,7 @@
 #else
 #include <Eigen/Core>
 
+#include <cmath>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -77,7 +78,7 @@ namespace limbo {
             Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded)
             {
                 int dim = init.size();
-                if (!_initialized)
+                if (!_initialized || _opt.get_dimension() != (unsigned)dim)
                     initialize(dim);
 
                 _opt.set_max_objective(nlopt_func<F>, (void*)&f);
@@ -89,6 +90,11 @@ namespace limbo {
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
                 }
+                else {
+                    // a previous bounded call must not restrict this one
+                    _opt.set_lower_bounds(std::vector<double>(dim, -HUGE_VAL));
+                    _opt.set_upper_bounds(std::vector<double>(dim, HUGE_VAL));
+                }
 
                 double max;
 
-- 
2.43.0


From ccfa5ec0c21e5a18bd6f1c756d8a3fa8a166c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 7/9] fix: GP::load without recomputation kept the residuals
 and the inverse kernel of an earlier fit

---
 src/limbo/model/gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..4c314f2 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -507,6 +507,9 @@ namespace limbo {
                 else {
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+                    // neither the residuals nor the inverse kernel of an earlier fit belong to the loaded model
+                    this->_compute_obs_mean();
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From abb8630e3e869aaf9c5734eef6b8e1539fc34bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:40 +0000
Subject: [PATCH 8/9] fix: TextArchive writes 17 significant digits and reads
 denormals back

---
 src/limbo/serialize/text_archive.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..5dc277f 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -47,7 +47,10 @@
 #define LIMBO_SERIALIZE_TEXT_ARCHIVE_HPP
 
 #include <cassert>
+#include <cstdlib>
+#include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -63,7 +66,7 @@ namespace limbo {
         class TextArchive {
         public:
             TextArchive(const std::string& dir_name) : _dir_name(dir_name),
-                                                       _fmt(Eigen::FullPrecision, Eigen::DontAlignCols, " ", "\n", "", "") {}
+                                                       _fmt(std::numeric_limits<double>::max_digits10, Eigen::DontAlignCols, " ", "\n", "", "") {}
 
             /// write an Eigen::Matrix*
             void save(const Eigen::MatrixXd& v, const std::string& object_name) const
@@ -142,7 +145,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr));
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From 71cee44dd9f667d66cad5045473c112d00b5653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:10 +0000
Subject: [PATCH 9/9] fix: CBOptimizer models get every observation and the
 best sample belongs to the best feasible observation

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 57 +++++++++----------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..8dc0bed 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -49,6 +49,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iterator>
+#include <limits>
 
 #include <boost/parameter/aux_/void.hpp>
 
@@ -175,6 +176,7 @@ namespace limbo {
                         Eigen::VectorXd starting_point = tools::random_vector(StateFunction::dim_in(), Params::bayes_opt_cboptimizer::bounded());
                         Eigen::VectorXd new_sample = acqui_optimizer(acqui_optimization, starting_point, Params::bayes_opt_cboptimizer::bounded());
                         this->eval_and_add(sfun, new_sample);
+                        _split_observations();
 
                         this->_update_stats(*this, afun);
 
@@ -198,34 +200,16 @@ namespace limbo {
                 template <typename AggregatorFunction = FirstElem>
                 const Eigen::VectorXd& best_observation(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
-                    _dim_out = _model.dim_out();
-                    _split_observations();
-
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return _obs[0][std::distance(rewards.begin(), max_e)];
+                    size_t best = _best_index(afun);
+                    return _obs[0][best];
                 }
 
                 /// return the best sample so far (i.e. the argmax(f(x)))
                 template <typename AggregatorFunction = FirstElem>
                 const Eigen::VectorXd& best_sample(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
-                    _dim_out = _model.dim_out();
-                    _split_observations();
-
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    size_t best = _best_index(afun);
+                    return this->_samples[best];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -237,15 +221,30 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                bool _is_feasible(size_t i) const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
-                    for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
-                    }
+                    return _nb_constraints == 0 || _obs[1][i].prod() > 0;
+                }
 
-                    return feasible_obs;
+                // index of the best evaluation among the feasible ones (among all if none is feasible)
+                template <typename AggregatorFunction>
+                size_t _best_index(const AggregatorFunction& afun) const
+                {
+                    _dim_out = _model.dim_out();
+                    _split_observations();
+
+                    auto rewards = std::vector<double>(_obs[0].size());
+                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
+
+                    bool any_feasible = false;
+                    for (size_t i = 0; i < rewards.size(); ++i)
+                        any_feasible = any_feasible || _is_feasible(i);
+                    for (size_t i = 0; i < rewards.size(); ++i)
+                        if (any_feasible && !_is_feasible(i))
+                            rewards[i] = -std::numeric_limits<double>::infinity();
+
+                    auto max_e = std::max_element(rewards.begin(), rewards.end());
+                    return std::distance(rewards.begin(), max_e);
                 }
 
                 void _split_observations() const
-- 
2.43.0

