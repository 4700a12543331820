From 8bb17fd955748200442eac83348e4cede8124bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 01/67] fix: K/N gate with a duplicate argument keeps the wrong
 argument

@(2, [x, x, z]) is x, but the duplicate x was erased and z kept,
so products of 2/3 gates with arguments reducing to the same node were wrong.
---
 src/pdag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index 7c9e6a9..c2a742f 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -366,7 +366,7 @@ void Gate::ProcessAtleastGateDuplicateArg(int index) noexcept {
   assert(args_.size() >= min_number_);
   if (args_.size() == 2) {  // @(2, [x, x, z]) = x
     assert(min_number_ == 2);
-    this->EraseArg(index);
+    this->EraseArg(*args_.begin() == index ? *args_.rbegin() : *args_.begin());
     this->type(kNull);
     return;
   }
-- 
2.43.0


From 4fa7014687900e11cadd27e3bc5fc567acc01148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 02/67] fix: Boolean optimization continues with a pass-through
 root gate

Processing of a common node may turn the root into a NULL gate,
which then stayed in the graph as an unregistered argument of a new root.
---
 src/preprocessor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 9a03e14..01ac294 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1830,9 +1830,12 @@ void Preprocessor::ProcessCommonNode(
   if (common_node.expired())
     return;  // The node has been deleted.
 
+  if (graph_->IsTrivial())
+    return;  // Pulls the child of the pass-through root if any.
+
   std::shared_ptr<N> node = common_node.lock();
 
-  if (node->parents().size() == 1)
+  if (node->parents().size() < 2)
     return;  // The extra parent is deleted.
   GatePtr root;
   MarkAncestors(node, &root);
-- 
2.43.0


From 0ca60c69e6f9355f315c0abe51026b53dedd7fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 03/67] fix: constant and NULL gates outlive their removal in
 preprocessing

Local owners kept replaced constant gates alive across RemoveNullGates,
and the merge filter could leave NULL gates behind;
both abort the analysis of valid models.
---
 src/preprocessor.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 01ac294..1e6c692 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -771,6 +771,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
       ReplaceGate(duplicate.lock(), def.first);
     }
   }
+  multi_def.clear();  // Do not keep constant gates alive.
   graph_->RemoveNullGates();
   return true;
 }
@@ -1132,8 +1133,12 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
     if (candidates.size() < 2)
       continue;
     FilterMergeCandidates(&candidates);
-    if (candidates.size() < 2)
+    if (candidates.size() < 2) {
+      candidates.clear();  // Do not keep constant gates alive.
+      root.reset();
+      graph_->RemoveNullGates();  // The filter may produce pass-through gates.
       continue;
+    }
     std::vector<MergeTable::Candidates> groups;
     GroupCandidatesByArgs(&candidates, &groups);
     for (const auto& group : groups) {
@@ -1152,6 +1157,9 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
         TransformCommonArgs(&member_group);
       }
     }
+    groups.clear();  // Do not keep constant gates alive.
+    candidates.clear();
+    root.reset();
     graph_->RemoveNullGates();
   }
   return changed;
@@ -1875,6 +1883,7 @@ void Preprocessor::ProcessCommonNode(
   }
   ClearStateMarks(root);
   node->opti_value(0);
+  root.reset();  // Do not keep a replaced (possibly constant) root alive.
   graph_->RemoveNullGates();
 }
 
-- 
2.43.0


From 222a3902be4093ed58f4d55971dacbc006b8caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 04/67] fix: the child of a pass-through root loses modularity

The new root of the graph must be an independent module as the old one.
---
 src/pdag.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index c2a742f..945346e 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -770,7 +770,10 @@ bool Pdag::IsTrivial() noexcept {
   assert(root_->args().size() == 1);
   if (!root_->args<Gate>().empty()) {  // Pull the child gate to the root.
     int signed_index = root_->args<Gate>().begin()->first;
+    bool module = root_->module();  // The root is always independent.
     root_ = root_->args<Gate>().begin()->second;  // Destroy the previous root.
+    if (module && !root_->module())
+      root_->module(true);
     assert(root_->parents().empty() && !root_->constant() &&
            root_->type() != kNull);
     complement() ^= signed_index < 0;
-- 
2.43.0


From ca0c98b8380bcdcfc6c3abfa5734f2e1064e4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 05/67] fix: decomposition uses gates without visit times

Gates created by constant propagation have no timing
and cannot be decomposition destinations.
---
 src/preprocessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 1e6c692..806c823 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2223,6 +2223,10 @@ bool Preprocessor::DecompositionProcessor::ProcessDestinations(
       continue;  // Removed by constant propagation.
     GatePtr parent = ptr.lock();
 
+    // Gates created by the decomposition itself have no assigned timing.
+    if (!parent->Visited())
+      continue;
+
     // The destination may already be processed
     // in the link of ancestors.
     if (!node_->parents().count(parent->index()))
-- 
2.43.0


From 13a2fa435c4777c8795baeafe3e7faca2c46e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 06/67] fix: BDD conversion with constant modules

A module gate may reduce to a constant function;
it must not be represented with a proxy variable.
---
 src/bdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index acb4448..6559b78 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -155,7 +155,7 @@ Bdd::Function Bdd::ConvertGraph(
   }
   for (const Gate::ConstArg<Gate>& arg : gate.args<Gate>()) {
     Function res = ConvertGraph(arg.second, gates);
-    if (arg.second.module()) {
+    if (arg.second.module() && !res.vertex->terminal()) {
       args.push_back(
           {arg.first < 0, FindOrAddVertex(arg.second, kOne_, kOne_, true)});
     } else {
-- 
2.43.0


From 9201613963d940fcf76abba2a049e90c72c4ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 07/67] fix: ZBDD of a single event ignores the zero order
 limit

---
 src/zbdd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index ee63ff6..7fe0311 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -78,7 +78,8 @@ Zbdd::Zbdd(const Pdag* graph, const Settings& settings) noexcept
       root_ = kBase_;
     } else {
       const Variable& var = top_gate.args<Variable>().begin()->second;
-      root_ = FindOrAddVertex(var.index(), kBase_, kEmpty_, var.order());
+      if (settings.limit_order() > 0)
+        root_ = FindOrAddVertex(var.index(), kBase_, kEmpty_, var.order());
     }
   }
   CHECK_ZBDD(true);
-- 
2.43.0


From f247fed95a4a566d161753b9148ef3333ca33830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 08/67] fix: BDD order cut-off drops modules that may become
 Unity

---
 src/zbdd.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index 7fe0311..0348e7a 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -289,11 +289,8 @@ Zbdd::VertexPtr Zbdd::ConvertBdd(const ItePtr& ite, bool complement,
                                      ites);
   VertexPtr low = ConvertBdd(ite->low(), ite->complement_edge() ^ complement,
                              bdd_graph, limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the set order.
-    if (low->terminal())
-      return low;
-    return kEmpty_;
-  }
+  if (limit_order == 0)  // Cut-off on the set order.
+    return low;          // Only Unity or modules that may be Unity.
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, --limit_order, ites);
   return GetReducedVertex(ite, false, high, low);
@@ -305,16 +302,13 @@ Zbdd::VertexPtr Zbdd::ConvertBddPrimeImplicants(
   Bdd::Function common = Bdd::Consensus()(bdd_graph, ite, complement);
   VertexPtr consensus = ConvertBdd(common.vertex, common.complement, bdd_graph,
                                    limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the product order.
-    if (consensus->terminal())
-      return consensus;
-    return kEmpty_;
-  }
   int sublimit = limit_order - 1;  // Assumes non-Unity element.
   if (ite->module() && !kSettings_.prime_implicants()) {
     assert(!ite->coherent() && "Only non-coherent modules through PI.");
     sublimit += 1;  // Unity modules may happen with minimal cut sets.
   }
+  if (sublimit < 0)  // Cut-off on the product order.
+    return consensus;
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, sublimit, ites);
   VertexPtr low = ConvertBdd(ite->low(), ite->complement_edge() ^ complement,
-- 
2.43.0


From a0e2a1e336d54019bdcd59ee336f4a6299e5cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 09/67] fix: sign of the marginal importance of a complemented
 BDD root

---
 src/importance_analysis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 8e7bff9..17abb4a 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -80,7 +80,7 @@ double ImportanceAnalyzer<Bdd>::CalculateMif(int index) noexcept {
   int order = bdd_graph_->index_to_order().find(index)->second;
   double mif = CalculateMif(root, order, !original_mark);
   bdd_graph_->ClearMarks(original_mark);
-  return mif;
+  return bdd_graph_->root().complement ? -mif : mif;
 }
 
 double ImportanceAnalyzer<Bdd>::CalculateMif(const Bdd::VertexPtr& vertex,
-- 
2.43.0


From aa1c84bc1b6d8b71e60a20c494cdb3721850ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 10/67] fix: flat stretch on a SIL bound counted in two buckets

---
 src/probability_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index ecd3708..9ff749c 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -102,6 +102,8 @@ void PartitionY(const Points& points, T* y_fractions) {
       std::swap(p_1, p_0);
     }
     auto fraction = [&k, &p_1, &p_0, &t_1, &t_0](double b_0, double b_1) {
+      if (p_0 == p_1 && p_0 == b_0 && b_0 != 0)
+        return 0.0;  // The lower bound belongs to the preceding bucket.
       if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.
         return (b_1 - b_0) / k;
       if (b_0 <= p_0 && p_1 <= b_1)  // Super-range.
-- 
2.43.0


From 742952418bc316eefdbcf8a0ffd695d992eb96a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 11/67] fix: Gamma deviate sample domain is its 99 percentile

---
 src/expression/random_deviate.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index fb5e810..2298bed 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -132,10 +132,8 @@ void GammaDeviate::Validate() const {
 }
 
 Interval GammaDeviate::interval() noexcept {
-  using boost::math::gamma_q;
-  double k_max = k_.value();
   double high_estimate =
-      theta_.value() * std::pow(gamma_q(k_max, gamma_q(k_max, 0) - 0.99), -1);
+      theta_.value() * boost::math::gamma_q_inv(k_.value(), 0.01);
   return Interval::left_open(0, high_estimate);
 }
 
-- 
2.43.0


From faf72ee0f5ff7eeae375e974b2dd7088ed80eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 12/67] fix: Beta deviate sample domain is its support

---
 src/expression/random_deviate.cc | 7 +------
 src/expression/random_deviate.h  | 2 +-
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 2298bed..c6f0fbb 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -25,7 +25,6 @@
 #include <functional>
 
 #include <boost/iterator/transform_iterator.hpp>
-#include <boost/math/special_functions/beta.hpp>
 #include <boost/math/special_functions/erf.hpp>
 #include <boost/math/special_functions/gamma.hpp>
 #include <boost/random/beta_distribution.hpp>
@@ -157,11 +156,7 @@ void BetaDeviate::Validate() const {
   }
 }
 
-Interval BetaDeviate::interval() noexcept {
-  double high_estimate =
-      std::pow(boost::math::ibeta(alpha_.value(), beta_.value(), 0.99), -1);
-  return Interval::closed(0, high_estimate);
-}
+Interval BetaDeviate::interval() noexcept { return Interval::closed(0, 1); }
 
 double BetaDeviate::DoSample() noexcept {
   return boost::random::beta_distribution(alpha_.value(),
diff --git a/src/expression/random_deviate.h b/src/expression/random_deviate.h
index 3494f37..34d4afd 100644
--- a/src/expression/random_deviate.h
+++ b/src/expression/random_deviate.h
@@ -233,7 +233,7 @@ class BetaDeviate : public RandomDeviate {
     return alpha_mean / (alpha_mean + beta_.value());
   }
 
-  /// @returns 99 percentile.
+  /// @returns The support of the distribution.
   Interval interval() noexcept override;
 
  private:
-- 
2.43.0


From ea8e4a047b68f11272f71344815fa2685007a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 13/67] fix: Validate arguments of expressions before the
 expressions

---
 src/initializer.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/initializer.cc b/src/initializer.cc
index 8ec668b..14a56d3 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -23,6 +23,7 @@
 #include <functional>  // std::mem_fn
 #include <sstream>
 #include <type_traits>
+#include <unordered_set>
 
 #include <boost/exception/errinfo_at_line.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -1799,16 +1800,29 @@ void Initializer::ValidateExpressions() {
   // This must be done before expressions.
   cycle::CheckCycle<Parameter>(model_->table<Parameter>(), "parameter");
 
-  // Validate expressions.
-  for (const std::pair<Expression*, xml::Element>& expression : expressions_) {
+  // Validate expressions after their arguments (including parameters)
+  // because only valid arguments can provide values and sample domains.
+  std::unordered_map<const Expression*, const xml::Element*> elements;
+  for (const std::pair<Expression*, xml::Element>& expression : expressions_)
+    elements.emplace(expression.first, &expression.second);
+
+  std::unordered_set<const Expression*> validated;
+  auto validate = [&elements, &validated](auto& self, Expression* expr) {
+    if (!validated.insert(expr).second)
+      return;
+    for (Expression* arg : expr->args())
+      self(self, arg);
     try {
-      expression.first->Validate();
+      expr->Validate();
     } catch (ValidityError& err) {
-      err << boost::errinfo_file_name(expression.second.filename())
-          << boost::errinfo_at_line(expression.second.line());
+      if (auto it = elements.find(expr); it != elements.end())
+        err << boost::errinfo_file_name(it->second->filename())
+            << boost::errinfo_at_line(it->second->line());
       throw;
     }
-  }
+  };
+  for (const std::pair<Expression*, xml::Element>& expression : expressions_)
+    validate(validate, expression.first);
 
   // Validate CCF groups.
   for (const CcfGroup& group : model_->ccf_groups())
-- 
2.43.0


From 1ff8a7a8bf178537a25d7ac49bb8e9fef911e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 14/67] fix: Reject probabilities and arguments that are not
 numbers

---
 src/expression.cc | 6 +++---
 src/expression.h  | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/expression.cc b/src/expression.cc
index c22f9ad..35cc76d 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -74,7 +74,7 @@ std::string ToString(const Interval& interval) {
 
 void EnsureProbability(Expression* expression, const char* type) {
   double value = expression->value();
-  if (value < 0 || value > 1)
+  if (!(value >= 0 && value <= 1))  // The value may be NaN.
     SCRAM_THROW(DomainError("Invalid " + std::string(type) + " value"))
         << errinfo_value(std::to_string(value));
 
@@ -88,7 +88,7 @@ void EnsurePositive(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value <= 0)
+  if (!(value > 0))
     SCRAM_THROW(DomainError(description + " argument value must be positive."s))
         << errinfo_value(std::to_string(value));
 
@@ -103,7 +103,7 @@ void EnsureNonNegative(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value < 0)
+  if (!(value >= 0))
     SCRAM_THROW(
         DomainError(description + " argument value cannot be negative."s))
         << errinfo_value(std::to_string(value));
diff --git a/src/expression.h b/src/expression.h
index b837952..1db4b24 100644
--- a/src/expression.h
+++ b/src/expression.h
@@ -43,7 +43,7 @@ inline bool Contains(const Interval& interval, double value) {
 
 /// Checks if a given interval is within the probability domain.
 inline bool IsProbability(const Interval& interval) {
-  return boost::icl::within(interval, Interval::closed(0, 1));
+  return interval.lower() >= 0 && interval.upper() <= 1;
 }
 
 /// Checks if all values in a given interval are non-negative.
@@ -262,7 +262,6 @@ class NaryExpression<T, -1> : public ExpressionFormula<NaryExpression<T, -1>> {
       std::tie(min_value, max_value) =
           std::minmax({max_max, max_min, min_max, min_min});
     }
-    assert(min_value <= max_value);
     return Interval::closed(min_value, max_value);
   }
 
-- 
2.43.0


From 01e457c6b0c87bfbc6683dad3f3f2f7f4f9301b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 15/67] fix: Sample domains of expressions that are not
 monotonic

---
 src/expression.h            |  7 ++++-
 src/expression/boolean.h    | 52 +++++++++++++++++++++++++++++++++
 src/expression/numerical.cc | 57 +++++++++++++++++++++++++++++++++++++
 src/expression/numerical.h  | 13 +++++++++
 4 files changed, 128 insertions(+), 1 deletion(-)

diff --git a/src/expression.h b/src/expression.h
index 1db4b24..ffaebad 100644
--- a/src/expression.h
+++ b/src/expression.h
@@ -176,7 +176,12 @@ class NaryExpression<T, 1> : public ExpressionFormula<NaryExpression<T, 1>> {
     Interval arg_interval = expression_.interval();
     double max_value = T()(arg_interval.upper());
     double min_value = T()(arg_interval.lower());
-    auto min_max = std::minmax(max_value, min_value);
+    auto min_max = std::minmax({max_value, min_value});
+    // The extremum of even functions and the steps of logical ones are at 0.
+    if (arg_interval.lower() < 0 && arg_interval.upper() > 0) {
+      double zero_value = T()(0.0);
+      min_max = std::minmax({max_value, min_value, zero_value});
+    }
     return Interval::closed(min_max.first, min_max.second);
   }
 
diff --git a/src/expression/boolean.h b/src/expression/boolean.h
index fb3e81f..1d3bd0c 100644
--- a/src/expression/boolean.h
+++ b/src/expression/boolean.h
@@ -23,6 +23,7 @@
 #include <functional>
 
 #include "src/expression.h"
+#include "src/ext/algorithm.h"
 
 namespace scram::mef {
 
@@ -36,4 +37,55 @@ using Gt = NaryExpression<std::greater<>, 2>;  ///< (>) test.
 using Leq = NaryExpression<std::less_equal<>, 2>;  ///< (<=) test.
 using Geq = NaryExpression<std::greater_equal<>, 2>;  ///< (>=) test.
 
+namespace detail {  // Certainty of Boolean values in sampling.
+
+/// @returns true if all the sampled values of an argument are not 0.
+inline bool IsTrue(Expression* arg) { return !Contains(arg->interval(), 0); }
+
+/// @returns true if all the sampled values of an argument are 0.
+inline bool IsFalse(Expression* arg) {
+  Interval interval = arg->interval();
+  return interval.lower() == 0 && interval.upper() == 0;
+}
+
+/// @returns true if the sampled values of the arguments can be equal.
+inline bool MayEqual(const Interval& one, const Interval& two) {
+  return one.lower() <= two.upper() && two.lower() <= one.upper();
+}
+
+/// @returns true if the sampled values of the arguments can be different.
+inline bool MayDiffer(const Interval& one, const Interval& two) {
+  return one.lower() != two.upper() || two.lower() != one.upper();
+}
+
+}  // namespace detail
+
+template <>
+inline Interval And::interval() noexcept {
+  return Interval::closed(ext::all_of(args(), detail::IsTrue),
+                          !ext::any_of(args(), detail::IsFalse));
+}
+
+template <>
+inline Interval Or::interval() noexcept {
+  return Interval::closed(ext::any_of(args(), detail::IsTrue),
+                          !ext::all_of(args(), detail::IsFalse));
+}
+
+template <>
+inline Interval Eq::interval() noexcept {
+  Interval one = args().front()->interval();
+  Interval two = args().back()->interval();
+  return Interval::closed(!detail::MayDiffer(one, two),
+                          detail::MayEqual(one, two));
+}
+
+template <>
+inline Interval Df::interval() noexcept {
+  Interval one = args().front()->interval();
+  Interval two = args().back()->interval();
+  return Interval::closed(!detail::MayEqual(one, two),
+                          detail::MayDiffer(one, two));
+}
+
 }  // namespace scram::mef
diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 7bd94f4..4b3bb3e 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -20,6 +20,9 @@
 
 #include "numerical.h"
 
+#include <algorithm>
+#include <limits>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -64,6 +67,60 @@ void Pow::Validate() const {
         DomainError("Power expression 'base' sample range contains 0);"
                     " positive exponent is required."));
   }
+  if (arg_one->value() < 0 || arg_one->interval().lower() < 0) {
+    Interval exponent = arg_two->interval();
+    if (exponent.lower() != exponent.upper() ||
+        exponent.lower() != std::floor(exponent.lower())) {
+      SCRAM_THROW(
+          DomainError("Power expression 'base' sample range has negative"
+                      " values; constant integer exponent is required."));
+    }
+  }
+}
+
+template <>
+Interval Tan::interval() noexcept {
+  assert(args().size() == 1);
+  Interval arg = args().front()->interval();
+  double pi = ConstantExpression::kPi.value();
+  // The branches are separated by poles at (k + 1/2) * pi.
+  if (std::floor(arg.lower() / pi + 0.5) != std::floor(arg.upper() / pi + 0.5))
+    return Interval::closed(std::numeric_limits<double>::lowest(),
+                            std::numeric_limits<double>::max());
+  return Interval::closed(std::tan(arg.lower()), std::tan(arg.upper()));
+}
+
+template <>
+Interval Mod::interval() noexcept {
+  assert(args().size() == 2);
+  Interval arg_one = args().front()->interval();
+  Interval arg_two = args().back()->interval();
+  int low = arg_one.lower();
+  int high = arg_one.upper();
+  int mod_low = arg_two.lower();
+  int mod_high = arg_two.upper();
+  if (low == high && mod_low == mod_high) {
+    int value = mod_low ? low % mod_low : 0;
+    return Interval::closed(value, value);
+  }
+  double max = std::fmax(std::fabs(mod_low), std::fabs(mod_high)) - 1;
+  return Interval::closed(low < 0 ? std::fmax(low, -max) : 0,
+                          high > 0 ? std::fmin(high, max) : 0);
+}
+
+template <>
+Interval Pow::interval() noexcept {
+  assert(args().size() == 2);
+  Interval base = args().front()->interval();
+  Interval exponent = args().back()->interval();
+  double low_low = std::pow(base.lower(), exponent.lower());
+  double low_high = std::pow(base.lower(), exponent.upper());
+  double high_low = std::pow(base.upper(), exponent.lower());
+  double high_high = std::pow(base.upper(), exponent.upper());
+  // Even powers have their minimum at 0.
+  double zero = base.lower() < 0 && base.upper() > 0 ? 0 : low_low;
+  auto min_max = std::minmax({low_low, low_high, high_low, high_high, zero});
+  return Interval::closed(min_max.first, min_max.second);
 }
 /// @endcond
 
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 786cba7..d64f4cc 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -185,6 +185,19 @@ template <>
 inline Interval Sin::interval() noexcept {
   return Interval::closed(-1, 1);
 }
+
+/// The whole range of values if the argument interval contains a pole.
+template <>
+Interval Tan::interval() noexcept;
+
+/// The remainder has the sign of the dividend,
+/// and its magnitude is less than the divisor and at most the dividend.
+template <>
+Interval Mod::interval() noexcept;
+
+/// The base may be negative only with the constant integer exponent.
+template <>
+Interval Pow::interval() noexcept;
 /// @}
 /// @endcond
 
-- 
2.43.0


From ba5143e2807a0d54cb4c2b24731474c6db625737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 16/67] fix: round-off in the complete periodic-test formula

---
 src/expression/exponential.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index bbe1d0a..08fb6d7 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -233,6 +233,12 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     return p_mu * omega + (1 - omega) * p_exp(p_mu, p_lambda, mu, lambda, t);
   };
 
+  // Keeps the probabilities within [0, 1] despite the round-off errors.
+  auto round_off = [&] {
+    for (double* p : {&p_fail, &p_repair, &p_available})
+      *p = *p < 0 ? 0 : *p > 1 ? 1 : *p;
+  };
+
   auto p_test = [&](double p_lambda_test, double p_mu, double p_lambda,
                     double t, bool available = true) {
     double p_fail_transient =
@@ -243,9 +249,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     p_available =
         1 - p_fail - p_repair -
         (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test));
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    round_off();
   };
   // Time after test.
   auto p_period = [&](double p_lambda, double p_mu, double t) {
@@ -253,9 +257,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
              p_repair * p_mu_lambda(p_mu, p_lambda, t);
     p_repair = p_repair * (1 - p_mu);
     p_available = 1 - p_fail - p_repair;
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    round_off();
   };
 
   double delta = time - theta;
-- 
2.43.0


From 52a67721004f2b51784c011d5e9f8ae0788464c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 17/67] fix: CCF groups with a single level-1 factor

---
 src/ccf_group.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index f5cf57c..0538283 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -148,7 +148,7 @@ void CcfGroup::ApplyModel() {
   }
 
   ExpressionMap probabilities = this->CalculateProbabilities();
-  assert(probabilities.size() > 1);
+  assert(!probabilities.empty());
 
   // Generate CCF events.
   for (auto& [level, prob] : probabilities) {
@@ -176,8 +176,10 @@ void CcfGroup::ApplyModel() {
 
   // Assign formulas to the proxy gates.
   for (std::pair<Gate*, Formula::ArgSet>& gate : proxy_gates) {
-    assert(gate.second.size() >= 2);
-    gate.first->formula(std::make_unique<Formula>(kOr, std::move(gate.second)));
+    assert(gate.second.size() >= 1);
+    Connective connective = gate.second.size() == 1 ? kNull : kOr;
+    gate.first->formula(
+        std::make_unique<Formula>(connective, std::move(gate.second)));
   }
 }
 
@@ -256,7 +258,9 @@ CcfGroup::ExpressionMap AlphaFactorModel::CalculateProbabilities() {
     sum_args.emplace_back(CcfGroup::Register<Mul>(
         {CcfGroup::Register<ConstantExpression>(factor.first), factor.second}));
   }
-  Expression* sum = CcfGroup::Register<Add>(std::move(sum_args));
+  Expression* sum = sum_args.size() == 1
+                        ? sum_args.front()
+                        : CcfGroup::Register<Add>(std::move(sum_args));
   int num_members = CcfGroup::members().size();
 
   for (int i = 0; i < max_level; ++i) {
-- 
2.43.0


From 903da844cd64fdee27206c0dcc4fc1f619182014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 18/67] fix: reject alpha-factor groups without positive
 factors

---
 src/ccf_group.cc | 6 ++++++
 src/ccf_group.h  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index 0538283..848d80d 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -249,6 +249,12 @@ CcfGroup::ExpressionMap MglModel::CalculateProbabilities() {
   return probabilities;
 }
 
+void AlphaFactorModel::DoValidate() const {
+  if (ext::none_of(CcfGroup::factors(),
+                   [](const auto& factor) { return factor.second->value() > 0; }))
+    SCRAM_THROW(ValidityError("The factors for Alpha model CCF are all zero."));
+}
+
 CcfGroup::ExpressionMap AlphaFactorModel::CalculateProbabilities() {
   ExpressionMap probabilities;
   int max_level = CcfGroup::factors().back().first;
diff --git a/src/ccf_group.h b/src/ccf_group.h
index 4ce7ff2..fb1af6a 100644
--- a/src/ccf_group.h
+++ b/src/ccf_group.h
@@ -236,6 +236,9 @@ class AlphaFactorModel : public CcfGroup {
   using CcfGroup::CcfGroup;
 
  private:
+  /// Checks that the factors can be normalized.
+  void DoValidate() const override;
+
   ExpressionMap CalculateProbabilities() override;
 };
 
-- 
2.43.0


From 87d19014f078e824723b96bd90d69080fcd9b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 19/67] fix: an event tree path that collects nothing makes its
 sequence unconditional

---
 src/event_tree_analysis.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 6bd06a6..05aec08 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -113,7 +113,10 @@ void EventTreeAnalysis::Analyze() noexcept {
     auto gate = std::make_unique<mef::Gate>("__" + sequence.first->name());
     std::vector<mef::FormulaPtr> gate_formulas;
     std::vector<mef::Expression*> arg_expressions;
+    bool is_unconditional = false;  // Some path collects nothing.
     for (PathCollector& path_collector : sequence.second) {
+      if (path_collector.formulas.empty() && path_collector.expressions.empty())
+        is_unconditional = true;
       if (path_collector.formulas.size() == 1) {
         gate_formulas.push_back(std::move(path_collector.formulas.front()));
       } else if (path_collector.formulas.size() > 1) {
@@ -134,6 +137,8 @@ void EventTreeAnalysis::Analyze() noexcept {
     }
     assert(gate_formulas.empty() || arg_expressions.empty());
     bool is_expression_only = !arg_expressions.empty();
+    if (is_unconditional)
+      gate_formulas.clear();  // Nothing else can restrict the sequence.
     if (gate_formulas.size() == 1) {
       gate->formula(std::move(gate_formulas.front()));
     } else if (gate_formulas.size() > 1) {
-- 
2.43.0


From 62b9271dc707f7c0db00828215e624904d063a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 20/67] fix: restore house events changed more than once by an
 alignment phase

---
 src/risk_analysis.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 114f29c..7c92262 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -58,8 +58,9 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
         model_->mission_time().value(init_time);
         Analysis::settings().mission_time(init_time);
 
-        for (const std::pair<mef::HouseEvent*, bool>& entry : house_events)
-          entry.first->state(entry.second);
+        // The phase may change the same event more than once.
+        for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
+          it->first->state(it->second);
       });
 
   if (context) {
-- 
2.43.0


From a3e56197d80125700202510dbe948cf957364e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:50 +0000
Subject: [PATCH 21/67] fix: apply declarative substitutions in exact
 probability calculations with any algorithm

---
 src/fault_tree_analysis.h   | 3 +++
 src/probability_analysis.cc | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index a561ef5..1bfd561 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -215,6 +215,9 @@ class FaultTreeAnalysis : public Analysis {
   /// @returns The top gate that is passed to the analysis.
   const mef::Gate& top_event() const { return top_event_; }
 
+  /// @returns The model with substitutions or nullptr.
+  const mef::Model* model() const { return model_; }
+
   /// Analyzes the fault tree and performs computations.
   /// This function must be called
   /// only after initializing the fault tree
diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index 9ff749c..7e0ec3a 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -250,7 +250,8 @@ void ProbabilityAnalyzer<Bdd>::CreateBdd(
   CLOCK(total_time);
 
   CLOCK(ft_creation);
-  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis());
+  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis(),
+             fta.model());
   LOG(DEBUG2) << "PDAG is created in " << DUR(ft_creation);
 
   CLOCK(prep_time);  // Overall preprocessing time.
-- 
2.43.0


From 2455e80ae349fe80a39e6299f1a70ac856ce05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 22/67] fix: report event and product probabilities of the
 phase they were analysed in

---
 gui/importancetablemodel.cpp |  2 +-
 src/fault_tree_analysis.cc   | 17 +++++++++++------
 src/fault_tree_analysis.h    | 25 +++++++++++++++++--------
 src/importance_analysis.cc   |  2 +-
 src/importance_analysis.h    |  1 +
 src/reporter.cc              |  4 ++--
 6 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/gui/importancetablemodel.cpp b/gui/importancetablemodel.cpp
index 79a0c47..5fbaddc 100644
--- a/gui/importancetablemodel.cpp
+++ b/gui/importancetablemodel.cpp
@@ -92,7 +92,7 @@ QVariant ImportanceTableModel::data(const QModelIndex &index, int role) const
     case 1:
         return record.factors.occurrence;
     case 2:
-        return record.event.p();
+        return record.p;
     case 3:
         return record.factors.mif;
     case 4:
diff --git a/src/fault_tree_analysis.cc b/src/fault_tree_analysis.cc
index 3af8499..01a07d4 100644
--- a/src/fault_tree_analysis.cc
+++ b/src/fault_tree_analysis.cc
@@ -84,8 +84,11 @@ void Print(const ProductContainer& products) {
 }
 
 ProductContainer::ProductContainer(const Zbdd& products,
-                                   const Pdag& graph) noexcept
-    : products_(products), graph_(graph), size_(0) {
+                                   const Pdag& graph, bool probability) noexcept
+    : products_(products),
+      graph_(graph),
+      size_(0),
+      p_vars_(probability ? graph.basic_events().size() : 0) {
   Pdag::IndexMap<bool> filter(graph_.basic_events().size());
   for (const std::vector<int>& product : products_) {
     int order_index = product.empty() ? 0 : product.size() - 1;
@@ -100,15 +103,16 @@ ProductContainer::ProductContainer(const Zbdd& products,
         continue;
       filter[i] = true;
       product_events_.insert(graph_.basic_events()[i]);
+      if (probability)
+        p_vars_[i] = graph_.basic_events()[i]->p();
     }
   }
 }
 
 double Product::p() const {
   double p = 1;
-  for (const Literal& literal : *this) {
-    p *= literal.complement ? 1 - literal.event.p() : literal.event.p();
-  }
+  for (int index : data_)
+    p *= index < 0 ? 1 - p_vars_[-index] : p_vars_[index];
   return p;
 }
 
@@ -146,7 +150,8 @@ void FaultTreeAnalysis::Store(const Zbdd& products,
   } else if (products.base()) {
     Analysis::AddWarning("The set is UNITY/Base.");
   }
-  products_ = std::make_unique<const ProductContainer>(products, graph);
+  products_ = std::make_unique<const ProductContainer>(
+      products, graph, Analysis::settings().probability_analysis());
 
 #ifndef NDEBUG
   for (const Product& product : *products_)
diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index 1bfd561..a54556b 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -68,8 +68,10 @@ class Product {
   ///
   /// @param[in] data  The underlying set.
   /// @param[in] graph  The graph with indices to events map.
-  Product(const std::vector<int>& data, const Pdag& graph) noexcept
-      : data_(data), graph_(graph) {}
+  /// @param[in] p_vars  The probabilities of the events with the indices.
+  Product(const std::vector<int>& data, const Pdag& graph,
+          const Pdag::IndexMap<double>& p_vars) noexcept
+      : data_(data), graph_(graph), p_vars_(p_vars) {}
 
   /// @returns true for unity product with no literals.
   bool empty() const { return data_.empty(); }
@@ -82,9 +84,10 @@ class Product {
   /// @note An empty set indicates the Base/Unity set.
   int order() const { return empty() ? 1 : size(); }
 
-  /// @returns The product of the literal probabilities.
+  /// @returns The product of the literal probabilities
+  ///          at the time of the analysis.
   ///
-  /// @pre Events are initialized with expressions.
+  /// @pre The probability analysis is requested.
   double p() const;
 
   /// @returns A read proxy iterator that points to the first element.
@@ -102,6 +105,7 @@ class Product {
  private:
   const std::vector<int>& data_;  ///< The collection of event indices.
   const Pdag& graph_;  ///< The host graph.
+  const Pdag::IndexMap<double>& p_vars_;  ///< The event probabilities.
 };
 
 /// A container of analysis result products with Literals.
@@ -113,9 +117,10 @@ class ProductContainer {
     ///
     /// @returns The wrapped product of Literals.
     Product operator()(const std::vector<int>& product) const {
-      return Product(product, graph);
+      return Product(product, graph, p_vars);
     }
     const Pdag& graph;  ///< The host graph.
+    const Pdag::IndexMap<double>& p_vars;  ///< The event probabilities.
   };
 
  public:
@@ -123,7 +128,9 @@ class ProductContainer {
   ///
   /// @param[in] products  Sets with indices of events from calculations.
   /// @param[in] graph  PDAG with basic event indices and pointers.
-  ProductContainer(const Zbdd& products, const Pdag& graph) noexcept;
+  /// @param[in] probability  Whether the events have probabilities to store.
+  ProductContainer(const Zbdd& products, const Pdag& graph,
+                   bool probability) noexcept;
 
   /// @returns Collection of basic events that are in the products.
   const std::unordered_set<const mef::BasicEvent*>& product_events() const {
@@ -134,11 +141,11 @@ class ProductContainer {
   /// @{
   auto begin() const {
     return boost::make_transform_iterator(products_.begin(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   auto end() const {
     return boost::make_transform_iterator(products_.end(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   /// @}
 
@@ -156,6 +163,8 @@ class ProductContainer {
   const Pdag& graph_;  ///< The analysis graph.
   int size_;  ///< The number of products.
   std::vector<int> distribution_;  ///< Product counts by order.
+  /// The probabilities of the product events upon analysis.
+  Pdag::IndexMap<double> p_vars_;
   /// The set of events in the resultant products.
   std::unordered_set<const mef::BasicEvent*> product_events_;
 };
diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 17abb4a..864a4cf 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -55,7 +55,7 @@ void ImportanceAnalysis::Analyze() noexcept {
       if (p_total != p_var * imp.mif)
         imp.rrw = p_total / (p_total - p_var * imp.mif);
     }
-    importance_.push_back({event, imp});
+    importance_.push_back({event, imp, p_var});
   }
   LOG(DEBUG3) << "Calculated importance factors in " << DUR(imp_time);
   Analysis::AddAnalysisTime(DUR(imp_time));
diff --git a/src/importance_analysis.h b/src/importance_analysis.h
index 86e9df2..d7356fd 100644
--- a/src/importance_analysis.h
+++ b/src/importance_analysis.h
@@ -47,6 +47,7 @@ struct ImportanceFactors {
 struct ImportanceRecord {
   const mef::BasicEvent& event;  ///< The event occurring in products.
   const ImportanceFactors factors;  ///< The importance factors of the event.
+  const double p;  ///< The probability of the event upon analysis.
 };
 
 class Zbdd;  // The container of products to be queries for important events.
diff --git a/src/reporter.cc b/src/reporter.cc
index e442b8d..23616cc 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -479,9 +479,9 @@ void Reporter::ReportResults(
   for (const core::ImportanceRecord& entry : importance_analysis.importance()) {
     const core::ImportanceFactors& factors = entry.factors;
     const mef::BasicEvent& event = entry.event;
-    auto add_data = [&event, &factors](xml::StreamElement* element) {
+    auto add_data = [&entry, &factors](xml::StreamElement* element) {
       element->SetAttribute("occurrence", factors.occurrence)
-          .SetAttribute("probability", event.p())
+          .SetAttribute("probability", entry.p)
           .SetAttribute("MIF", factors.mif)
           .SetAttribute("CIF", factors.cif)
           .SetAttribute("DIF", factors.dif)
-- 
2.43.0


From 22c517c677682ed8f9b1627c11226c6c8a3f7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 23/67] fix: apply substitutions to trivial graphs with MOCUS

---
 src/mocus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mocus.cc b/src/mocus.cc
index 9c43e8c..1e4a9c8 100644
--- a/src/mocus.cc
+++ b/src/mocus.cc
@@ -40,6 +40,7 @@ void Mocus::Analyze(const Pdag*) noexcept {
   if (graph_->IsTrivial()) {
     LOG(DEBUG2) << "The PDAG is trivial!";
     zbdd_ = std::make_unique<Zbdd>(graph_, kSettings_);
+    zbdd_->Analyze(graph_);  // Substitutions may apply.
     return;
   }
 
-- 
2.43.0


From 4e30dceb317f06ccf044c2d90c2b25927cd72766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 24/67] fix: drop prime implicants before the approximation
 when the algorithm changes

Requesting ZBDD or MOCUS after prime implicants set the rare-event
approximation while prime implicants were still on; the setter threw
out of the noexcept function and the program was terminated.
---
 src/settings.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index afd50ac..0f0c7d2 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -35,10 +35,10 @@ Settings& Settings::algorithm(Algorithm value) noexcept {
       approximation(Approximation::kNone);
       break;
     default:
-      if (approximation_ == Approximation::kNone)
-        approximation(Approximation::kRareEvent);
       if (prime_implicants_)
         prime_implicants(false);
+      if (approximation_ == Approximation::kNone)
+        approximation(Approximation::kRareEvent);
   }
   return *this;
 }
-- 
2.43.0


From d12c3b07ba706f719d750dedbc9bd35a367b0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 25/67] fix: refuse cut-off, mission time and time step that
 are not numbers

NaN passed the range tests, and infinite times were accepted.
---
 src/settings.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index 0f0c7d2..48e7be3 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -20,6 +20,8 @@
 
 #include "settings.h"
 
+#include <cmath>
+
 #include <string>
 
 #include <boost/range/algorithm.hpp>
@@ -95,7 +97,7 @@ Settings& Settings::limit_order(int order) {
 }
 
 Settings& Settings::cut_off(double prob) {
-  if (prob < 0 || prob > 1)
+  if (!(prob >= 0 && prob <= 1))
     SCRAM_THROW(SettingsError(
         "The cut-off probability cannot be negative or more than 1."))
         << errinfo_value(std::to_string(prob));
@@ -141,7 +143,7 @@ Settings& Settings::seed(int s) {
 }
 
 Settings& Settings::mission_time(double time) {
-  if (time < 0)
+  if (!(time >= 0 && std::isfinite(time)))
     SCRAM_THROW(SettingsError("The mission time cannot be negative."))
         << errinfo_value(std::to_string(time));
 
@@ -150,7 +152,7 @@ Settings& Settings::mission_time(double time) {
 }
 
 Settings& Settings::time_step(double time) {
-  if (time < 0)
+  if (!(time >= 0 && std::isfinite(time)))
     SCRAM_THROW(SettingsError("The time step cannot be negative."))
         << errinfo_value(std::to_string(time));
   if (!time && safety_integrity_levels_)
-- 
2.43.0


From 0ec3f49c31be7ce47b35492844ee877432d1cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 26/67] fix: command line keeps the analyses the project file
 asks for

Flags absent from the command line reset the flags of the project file.
---
 src/scram.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/scram.cc b/src/scram.cc
index 523d778..6eaf1c8 100644
--- a/src/scram.cc
+++ b/src/scram.cc
@@ -189,6 +189,12 @@ int ParseArguments(int argc, char* argv[], po::variables_map* vm) {
 /// only if provided by "vm" arguments.
 #define SET(tag, type, member) \
   if (vm.count(tag)) settings->member(vm[tag].as<type>())
+
+/// Turns on the flag in "settings"
+/// only if provided by "vm" arguments
+/// to keep the flags set by the project configuration otherwise.
+#define SET_FLAG(tag, member) \
+  if (vm.count(tag)) settings->member(true)
 // clang-format on
 
 /// Updates analysis settings from command-line arguments.
@@ -208,7 +214,7 @@ void ConstructSettings(const po::variables_map& vm,
   } else if (vm.count("mocus")) {
     settings->algorithm(scram::core::Algorithm::kMocus);
   }
-  settings->prime_implicants(vm.count("prime-implicants"));
+  SET_FLAG("prime-implicants", prime_implicants);
   // Determine if the probability approximation is requested.
   if (vm.count("rare-event")) {
     assert(!vm.count("mcub"));
@@ -217,12 +223,12 @@ void ConstructSettings(const po::variables_map& vm,
     settings->approximation(scram::core::Approximation::kMcub);
   }
   SET("time-step", double, time_step);
-  settings->safety_integrity_levels(vm.count("sil"));
+  SET_FLAG("sil", safety_integrity_levels);
 
-  settings->probability_analysis(vm.count("probability"));
-  settings->importance_analysis(vm.count("importance"));
-  settings->uncertainty_analysis(vm.count("uncertainty"));
-  settings->ccf_analysis(vm.count("ccf"));
+  SET_FLAG("probability", probability_analysis);
+  SET_FLAG("importance", importance_analysis);
+  SET_FLAG("uncertainty", uncertainty_analysis);
+  SET_FLAG("ccf", ccf_analysis);
   SET("seed", int, seed);
   SET("limit-order", int, limit_order);
   SET("cut-off", double, cut_off);
@@ -235,6 +241,7 @@ void ConstructSettings(const po::variables_map& vm,
   settings->print = vm.count("print");
 #endif
 }
+#undef SET_FLAG
 #undef SET
 
 /// Main body of command-line entrance to run the program.
-- 
2.43.0


From 858f0367c21ec0cf80ec8e493eab5324d05c00e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 27/67] fix: keep another flavor attribute when the flavor
 command is undone

---
 gui/model.cpp | 13 ++++++-------
 gui/model.h   |  1 +
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gui/model.cpp b/gui/model.cpp
index 30763c2..894dd04 100644
--- a/gui/model.cpp
+++ b/gui/model.cpp
@@ -76,6 +76,8 @@ BasicEvent::SetFlavor::SetFlavor(BasicEvent *basicEvent, Flavor flavor)
                      .arg(basicEvent->id(), flavorToString(flavor))),
       m_flavor(flavor), m_basicEvent(basicEvent)
 {
+    if (flavor == Undeveloped)
+        m_attribute = mef::Attribute("flavor", "undeveloped", "");
 }
 
 void BasicEvent::SetFlavor::redo()
@@ -85,14 +87,11 @@ void BasicEvent::SetFlavor::redo()
         return;
 
     mef::Element *mefEvent = m_basicEvent->data();
-    switch (m_flavor) {
-    case Basic:
+    std::optional<mef::Attribute> cur_attribute =
         mefEvent->RemoveAttribute("flavor");
-        break;
-    case Undeveloped:
-        mefEvent->SetAttribute({"flavor", "undeveloped", ""});
-        break;
-    }
+    if (m_attribute)
+        mefEvent->SetAttribute(*m_attribute);
+    m_attribute = std::move(cur_attribute);
     m_basicEvent->m_flavor = m_flavor;
     emit m_basicEvent->flavorChanged(m_flavor);
     m_flavor = cur_flavor;
diff --git a/gui/model.h b/gui/model.h
index e13b6ab..7e4615c 100644
--- a/gui/model.h
+++ b/gui/model.h
@@ -258,6 +258,7 @@ public:
     private:
         Flavor m_flavor;          ///< The basic event flavor.
         BasicEvent *m_basicEvent; ///< The target basic event.
+        std::optional<mef::Attribute> m_attribute; ///< The flavor attribute.
     };
 
 signals:
-- 
2.43.0


From 1c40b1ce43a762857f93ae5084310f445f8b95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 28/67] fix: announce the removed row in the tables of elements

The swap with the last row did not announce the change of the children
of the moved gate.
---
 gui/elementcontainermodel.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index c770167..b87790e 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -94,19 +94,12 @@ void ElementContainerModel::removeElement(Element *element)
 {
     GUI_ASSERT(m_elementToIndex.count(element), );
     int index = m_elementToIndex.find(element)->second;
-    int lastIndex = m_elements.size() - 1;
-    auto *lastElement = m_elements.back();
-    // The following is basically a swap with the last item.
-    beginRemoveRows({}, lastIndex, lastIndex);
+    beginRemoveRows({}, index, index);
     m_elementToIndex.erase(element);
-    m_elements.pop_back();
+    m_elements.erase(m_elements.begin() + index);
+    for (int i = index; i < static_cast<int>(m_elements.size()); ++i)
+        m_elementToIndex[m_elements[i]] = i;
     endRemoveRows();
-    if (index != lastIndex) {
-        m_elements[index] = lastElement;
-        m_elementToIndex[lastElement] = index;
-        emit dataChanged(createIndex(index, 0, lastElement),
-                         createIndex(index, columnCount() - 1, lastElement));
-    }
     disconnect(element, 0, this, 0);
 }
 
-- 
2.43.0


From a3a226677d8a9048a5467108c5d8653a9592ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:52 +0000
Subject: [PATCH 29/67] fix: do not announce cells of a gate before the reset
 of its new arguments

A sorted view of the gates asked for arguments that the new formula does
not have.
---
 gui/elementcontainermodel.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index b87790e..23ef388 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -266,10 +266,7 @@ void GateContainerModel::connectElement(Element *element)
 {
     ElementContainerModel::connectElement(element);
     connect(static_cast<Gate *>(element), &Gate::formulaChanged, this,
-            [this, element] {
-                int row = getElementIndex(element);
-                emit dataChanged(createIndex(row, 1, element),
-                                 createIndex(row, 2, element));
+            [this] {
                 /// @todo Track gate formula changes more precisely.
                 beginResetModel();
                 endResetModel();
-- 
2.43.0


From 1a9abc7477f64e01fadf3a36bf0503366c55eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:47 +0000
Subject: [PATCH 30/67] fix: announce the new name of an event to the gates
 that have it as an argument

---
 gui/elementcontainermodel.cpp | 32 ++++++++++++++++++++++++++++++++
 gui/elementcontainermodel.h   |  8 ++++++++
 2 files changed, 40 insertions(+)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index 23ef388..3ef2bff 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -260,11 +260,43 @@ GateContainerModel::GateContainerModel(Model *model, QObject *parent)
 {
     for (Element *element : elements())
         connectElement(element);
+    for (const std::unique_ptr<BasicEvent> &event : model->basicEvents())
+        connectArgument(event.get());
+    for (const std::unique_ptr<HouseEvent> &event : model->houseEvents())
+        connectArgument(event.get());
+    connect(model, qOverload<BasicEvent *>(&Model::added), this,
+            [this](BasicEvent *event) { connectArgument(event); });
+    connect(model, qOverload<HouseEvent *>(&Model::added), this,
+            [this](HouseEvent *event) { connectArgument(event); });
+    connect(model, qOverload<BasicEvent *>(&Model::removed), this,
+            [this](BasicEvent *event) { disconnect(event, 0, this, 0); });
+    connect(model, qOverload<HouseEvent *>(&Model::removed), this,
+            [this](HouseEvent *event) { disconnect(event, 0, this, 0); });
+}
+
+template <class T>
+void GateContainerModel::connectArgument(T *event)
+{
+    connect(event, &Element::idChanged, this, [this, event] {
+        for (Element *element : elements()) {
+            auto *gate = static_cast<Gate *>(element);
+            auto value = reinterpret_cast<std::uintptr_t>(gate);
+            for (int row = 0; row < gate->numArgs(); ++row) {
+                if (gate->args()[row].event
+                    != mef::Formula::ArgEvent(event->data()))
+                    continue;
+                QModelIndex index = createIndex(
+                    row, 0, reinterpret_cast<void *>(value | m_parentMask));
+                emit dataChanged(index, index);
+            }
+        }
+    });
 }
 
 void GateContainerModel::connectElement(Element *element)
 {
     ElementContainerModel::connectElement(element);
+    connectArgument(static_cast<Gate *>(element));
     connect(static_cast<Gate *>(element), &Gate::formulaChanged, this,
             [this] {
                 /// @todo Track gate formula changes more precisely.
diff --git a/gui/elementcontainermodel.h b/gui/elementcontainermodel.h
index 9a1f78c..0448cf7 100644
--- a/gui/elementcontainermodel.h
+++ b/gui/elementcontainermodel.h
@@ -194,6 +194,14 @@ private:
     static const std::uintptr_t m_parentMask = 1; ///< Tagged parent pointer.
 
     void connectElement(Element *element) final;
+
+    /// Connects the ID changes of an event to the arguments of its gates.
+    ///
+    /// @tparam T  The proxy event type.
+    ///
+    /// @param[in] event  The event in the model.
+    template <class T>
+    void connectArgument(T *event);
 };
 
 /// The proxy model specialized for the gate tree-table.
-- 
2.43.0


From aa019082ab9b5ebb1d18f59ca3593a056eb8ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 31/67] fix: make members of CCF groups reachable by path

---
 src/initializer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initializer.cc b/src/initializer.cc
index 14a56d3..ae8c009 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -1272,7 +1272,9 @@ void Initializer::ProcessCcfMembers(const xml::Element& members_node,
       err << boost::errinfo_at_line(event_node.line());
       throw;
     }
+    BasicEvent* member = basic_event.get();
     Register(std::move(basic_event), event_node);
+    path_basic_events_.insert(member);
   }
 }
 
-- 
2.43.0


From 89a380777523390a96808b201925bd03a17a402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 32/67] fix: quantify a single argument without a one-argument
 OR

---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index 945346e..5cbb800 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -680,6 +680,8 @@ GatePtr Pdag::ConstructComplexGate(const mef::Formula& formula, bool ccf,
       auto well_form = [](Gate* atleast) {
         if (atleast->min_number() == 0) {
           atleast->MakeConstant(true);
+        } else if (atleast->args().size() == 1) {
+          atleast->type(kNull);
         } else if (atleast->min_number() == 1) {
           atleast->type(kOr);
         } else if (atleast->min_number() == atleast->args().size()) {
-- 
2.43.0


From a837260112d0a7d1164c44deaadedc436666286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 33/67] fix: analyse and report top events in a fixed order

The order followed the addresses of the gates, so the order of the results
in the report, and the random numbers each result got, varied between runs
with the same input, settings and seed.
---
 src/fault_tree.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fault_tree.cc b/src/fault_tree.cc
index 90e0614..0d88b4e 100644
--- a/src/fault_tree.cc
+++ b/src/fault_tree.cc
@@ -20,6 +20,8 @@
 
 #include "fault_tree.h"
 
+#include <algorithm>
+
 #include "error.h"
 
 namespace scram::mef {
@@ -75,6 +77,11 @@ void FaultTree::CollectTopEvents() {
       top_events_.push_back(gate);
     }
   }
+  // The order must not depend on the addresses of the gates.
+  std::sort(top_events_.begin(), top_events_.end(),
+            [](const Gate* lhs, const Gate* rhs) {
+              return lhs->id() < rhs->id();
+            });
 }
 
 void FaultTree::MarkNonTopGates(Gate* gate,
-- 
2.43.0


From 27344f6a226675cc551b7b41977e04adbec3b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 34/67] fix: report schema lacked the number of substitutions

---
 share/report.rng | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/share/report.rng b/share/report.rng
index 7d67566..9489c46 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -95,6 +95,11 @@
             <data type="nonNegativeInteger"/>
           </element>
         </optional>
+        <optional>
+          <element name="substitutions">
+            <data type="nonNegativeInteger"/>
+          </element>
+        </optional>
       </element>
       <zeroOrMore>
         <element name="warning"> <text/> </element>
-- 
2.43.0


From 130548004fa49f80dfead892a899bc7254b39b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 35/67] fix: report schema limited the failure frequency PFH to
 1

---
 share/report.rng | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/share/report.rng b/share/report.rng
index 9489c46..40b36bf 100644
--- a/share/report.rng
+++ b/share/report.rng
@@ -488,7 +488,11 @@
     <element name="safety-integrity-levels">
       <ref name="analysis-id"/>
       <attribute name="PFD-avg"> <ref name="probability-data"/> </attribute>
-      <attribute name="PFH-avg"> <ref name="probability-data"/> </attribute>
+      <attribute name="PFH-avg">
+        <data type="double">  <!-- A frequency, not a probability -->
+          <param name="minInclusive">0</param>
+        </data>
+      </attribute>
       <ref name="histogram"/>  <!-- Implicit PFD histogram -->
       <ref name="histogram"/>  <!-- Implicit PFH histogram -->
     </element>
-- 
2.43.0


From 8b89c239e5d1520c6b721fa6eccfe935b4008c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 36/67] fix: escape white space control characters in XML
 attributes

A reader replaces bare line ends and tabs of attribute values with spaces
and drops carriage returns, so that such values changed on every save.
---
 src/xml_stream.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index f41ed6b..54281f1 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -360,6 +360,9 @@ class StreamElement {
           case '&':
           case '<':
           case '"':
+          case '\n':
+          case '\t':
+          case '\r':
             return true;
         }
       }
@@ -381,6 +384,15 @@ class StreamElement {
           case '"':
             out_ << "&quot;";
             break;
+          case '\n':  // Readers turn bare white space of attributes into spaces.
+            accept_attributes_ ? out_ << "&#10;" : out_ << '\n';
+            break;
+          case '\t':
+            accept_attributes_ ? out_ << "&#9;" : out_ << '\t';
+            break;
+          case '\r':
+            out_ << "&#13;";
+            break;
           default:
             out_ << *value;
         }
-- 
2.43.0


From 6fbaf5eb389fa5e616fcada3a059d2f09588d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:40 +0000
Subject: [PATCH 37/67] fix: escape the end of CDATA sections in XML text

The sequence ]]> in text is ill-formed, so that reports and saved models
with such labels could not be read.
---
 src/xml_stream.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index 54281f1..d91e8f3 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -359,6 +359,7 @@ class StreamElement {
             return false;
           case '&':
           case '<':
+          case '>':
           case '"':
           case '\n':
           case '\t':
@@ -371,6 +372,7 @@ class StreamElement {
     if (!has_special_chars) {  // The most common case.
       out_ << value;
     } else {
+      const char* begin = value;
       for (;; ++value) {
         switch (*value) {
           case '\0':
@@ -381,6 +383,13 @@ class StreamElement {
           case '<':
             out_ << "&lt;";
             break;
+          case '>':  // The sequence ]]> is not allowed in text.
+            if (value - begin >= 2 && value[-1] == ']' && value[-2] == ']') {
+              out_ << "&gt;";
+            } else {
+              out_ << '>';
+            }
+            break;
           case '"':
             out_ << "&quot;";
             break;
-- 
2.43.0


From 36e8e126dfd3c5711c81b6b10756b6ed1825bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:03 +0000
Subject: [PATCH 38/67] fix: save constant arguments of formulas as constants

They were saved as references to undefined events __true__ and __false__.
---
 src/serialization.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 1992506..644d1bb 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -79,8 +79,13 @@ void SerializeElement(const Element& element, xml::StreamElement* xml_element) {
 void Serialize(const Formula& formula, xml::StreamElement* parent) {
   auto stream_event = [](const Formula::ArgEvent& event,
                          xml::StreamElement* xml) {
-    xml->AddChild("event").SetAttribute(
-        "name", ext::as<const mef::Event*>(event)->name());
+    const auto* arg = ext::as<const mef::Event*>(event);
+    if (arg == &HouseEvent::kTrue || arg == &HouseEvent::kFalse) {
+      xml->AddChild("constant")
+          .SetAttribute("value", arg == &HouseEvent::kTrue);
+    } else {
+      xml->AddChild("event").SetAttribute("name", arg->name());
+    }
   };
   auto stream_arg = [&stream_event](const Formula::Arg& arg,
                                     xml::StreamElement* xml) {
-- 
2.43.0


From 5c660b2f7fc5903c9ac7092e887e3614291bb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 39/67] fix: save formulas with iff, imply and cardinality

---
 src/serialization.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/serialization.cc b/src/serialization.cc
index 644d1bb..0fbd08a 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -122,6 +122,17 @@ void Serialize(const Formula& formula, xml::StreamElement* parent) {
             atleast.SetAttribute("min", *formula.min_number());
             return atleast;
           }();  // Wrap NRVO into RVO for GCC.
+        case kIff:
+          return parent->AddChild("iff");
+        case kImply:
+          return parent->AddChild("imply");
+        case kCardinality:
+          return [&formula, &parent] {
+            xml::StreamElement cardinality = parent->AddChild("cardinality");
+            cardinality.SetAttribute("min", *formula.min_number());
+            cardinality.SetAttribute("max", *formula.max_number());
+            return cardinality;
+          }();
         default:
           assert(false && "Unexpected formula");
       }
-- 
2.43.0


From 478ecab326782b89227173d88ba9dc56518b862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 40/67] fix: save numbers without loss of precision

Numbers were rounded to 6 digits, which changed the saved model.
---
 src/serialization.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 0fbd08a..c9a991b 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -19,6 +19,9 @@
 
 #include "serialization.h"
 
+#include <cstdio>
+#include <cstdlib>
+
 #include <memory>
 
 #include <boost/exception/errinfo_errno.hpp>
@@ -158,12 +161,23 @@ void Serialize(const FaultTree& fault_tree, xml::StreamElement* parent) {
     Serialize(gate, &ft_element);
 }
 
+/// @returns The shortest decimal text that reads back as the same number.
+std::string ToText(double value) {
+  char text[32];
+  for (int digits : {6, 15, 16, 17}) {
+    std::snprintf(text, sizeof(text), "%.*g", digits, value);
+    if (std::strtod(text, nullptr) == value)
+      break;
+  }
+  return text;
+}
+
 void Serialize(const Expression& expression, xml::StreamElement* parent) {
   if (const auto* constant =
           dynamic_cast<const ConstantExpression*>(&expression)) {
     /// @todo Track the original value type of the constant expression.
     parent->AddChild("float").SetAttribute(
-        "value", const_cast<ConstantExpression*>(constant)->value());
+        "value", ToText(const_cast<ConstantExpression*>(constant)->value()));
   } else if (const auto* exponential =
                  dynamic_cast<const Exponential*>(&expression)) {
     xml::StreamElement xml = parent->AddChild("exponential");
-- 
2.43.0


From b13ac7fd7c9ee9336ef23597e24ce8883913aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:59 +0000
Subject: [PATCH 41/67] fix: compare terminal arguments consistently in ZBDD
 conversion

The comparison was no strict weak ordering: sorting more than 16 arguments,
several of them terminal, ran out of the array and crashed or did not end.
---
 src/zbdd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index 0348e7a..a8fce5f 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -345,10 +345,10 @@ Zbdd::VertexPtr Zbdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const VertexPtr& lhs, const VertexPtr& rhs) {
+    if (rhs->terminal())
+      return false;  // Terminal arguments are equivalent.
     if (lhs->terminal())
       return true;
-    if (rhs->terminal())
-      return false;
     return SetNode::Ref(lhs).order() > SetNode::Ref(rhs).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From 5412b39db31f865380621271816583bae5278b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:30 +0000
Subject: [PATCH 42/67] fix: compare terminal arguments consistently in BDD
 conversion

The comparison was no strict weak ordering, as in the ZBDD conversion.
---
 src/bdd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index 6559b78..2640574 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -164,10 +164,10 @@ Bdd::Function Bdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const Function& lhs, const Function& rhs) {
+    if (rhs.vertex->terminal())
+      return false;  // Terminal arguments are equivalent.
     if (lhs.vertex->terminal())
       return true;
-    if (rhs.vertex->terminal())
-      return false;
     return Ite::Ref(lhs.vertex).order() > Ite::Ref(rhs.vertex).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From b125fcdeee1f8e49cf5bcc086c2272a05129a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 43/67] fix: no standard deviation of a single trial

---
 src/uncertainty_analysis.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 27b542a..3ea1393 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -110,7 +110,10 @@ void UncertaintyAnalysis::CalculateStatistics(
     distribution_.push_back(hist[i]);
   }
   mean_ = boost::accumulators::mean(acc);
-  sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
+  // The sample of a single trial has no spread.
+  sigma_ = num_trials > 1
+               ? std::sqrt(num_trials * variance(acc) / (num_trials - 1))
+               : 0;
   error_factor_ = std::exp(1.96 * sigma_);
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
-- 
2.43.0


From ed2bd47593d0c7be637a1999432a76624fa64af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 44/67] fix: histogram lost the greatest samples

---
 src/uncertainty_analysis.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 3ea1393..8ad0343 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -109,6 +109,10 @@ void UncertaintyAnalysis::CalculateStatistics(
   for (int i = 1; i < hist.size(); i++) {
     distribution_.push_back(hist[i]);
   }
+  // The overflow bin of the density starts at the maximum of the sample,
+  // so it can only contain the samples on the upper bound of the last bin.
+  distribution_[distribution_.size() - 2].second += distribution_.back().second;
+  distribution_.back().second = 0;
   mean_ = boost::accumulators::mean(acc);
   // The sample of a single trial has no spread.
   sigma_ = num_trials > 1
-- 
2.43.0


From 34b9eb0864b59ad9a24b7729e386ff58e31ff5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:13 +0000
Subject: [PATCH 45/67] fix: quantiles of the sample instead of unreliable
 estimates

---
 src/uncertainty_analysis.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 8ad0343..7857ad7 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -21,10 +21,12 @@
 #include "uncertainty_analysis.h"
 
 #include <cmath>
+#include <cstdint>
+
+#include <algorithm>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics/density.hpp>
-#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
 #include <boost/accumulators/statistics/mean.hpp>
 #include <boost/accumulators/statistics/stats.hpp>
 #include <boost/accumulators/statistics/variance.hpp>
@@ -90,18 +92,10 @@ void UncertaintyAnalysis::CalculateStatistics(
   using namespace boost::accumulators;  // NOLINT
   using histogram_type =
       iterator_range<std::vector<std::pair<double, double>>::iterator>;
-  quantiles_.clear();
-  int num_quantiles = Analysis::settings().num_quantiles();
-  double delta = 1.0 / num_quantiles;
-  for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_.push_back(delta * (i + 1));
-  }
   int num_trials = Analysis::settings().num_trials();
-  accumulator_set<double, stats<tag::mean, tag::variance, tag::density,
-                                tag::extended_p_square_quantile>>
+  accumulator_set<double, stats<tag::mean, tag::variance, tag::density>>
       acc(tag::density::num_bins = Analysis::settings().num_bins(),
-          tag::density::cache_size = num_trials,
-          extended_p_square_probabilities = quantiles_);
+          tag::density::cache_size = num_trials);
   for (double sample : samples) {
     acc(sample);
   }
@@ -122,8 +116,14 @@ void UncertaintyAnalysis::CalculateStatistics(
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
 
-  for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_[i] = quantile(acc, quantile_probability = quantiles_[i]);
+  // The whole sample is available, so there is no need to estimate quantiles.
+  std::vector<double> sorted_samples(samples);
+  std::sort(sorted_samples.begin(), sorted_samples.end());
+  quantiles_.clear();
+  std::int64_t num_quantiles = Analysis::settings().num_quantiles();
+  for (std::int64_t i = 1; i <= num_quantiles; ++i) {
+    std::int64_t rank = (i * num_trials + num_quantiles - 1) / num_quantiles;
+    quantiles_.push_back(sorted_samples[rank - 1]);
   }
 }
 
-- 
2.43.0


From 54a30bd810717f6f73c57a87658458c186b4fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 46/67] fix: first trial of an analysis reused random values of
 the analysis before

---
 src/uncertainty_analysis.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 7857ad7..f6241b0 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -75,15 +75,17 @@ UncertaintyAnalysis::GatherDeviateExpressions(const Pdag* graph) noexcept {
 void UncertaintyAnalysis::SampleExpressions(
     const std::vector<std::pair<int, mef::Expression&>>& deviate_expressions,
     Pdag::IndexMap<double>* p_vars) noexcept {
-  // Reset distributions.
-  for (const auto& expression : deviate_expressions)
-    expression.second.Reset();
-
   // Sample all expressions with distributions.
   for (const auto& expression : deviate_expressions) {
     double prob = expression.second.Sample();
     (*p_vars)[expression.first] = prob > 1 ? 1 : prob < 0 ? 0 : prob;
   }
+
+  // Reset distributions only after the trial
+  // because an expression not sampled yet does not reset its arguments
+  // that may have been sampled with other expressions (other analyses).
+  for (const auto& expression : deviate_expressions)
+    expression.second.Reset();
 }
 
 void UncertaintyAnalysis::CalculateStatistics(
-- 
2.43.0


From 8cd5e3b38c8edb712b9a9e819aac1308c67cbed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 47/67] fix: generator output order depended on object
 addresses

---
 scripts/fault_tree.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/scripts/fault_tree.py b/scripts/fault_tree.py
index 0e7dd3a..dc15c0d 100644
--- a/scripts/fault_tree.py
+++ b/scripts/fault_tree.py
@@ -22,7 +22,7 @@ class Event:
 
     Attributes:
         name: A specific name that identifies this node.
-        parents: A set of parents of this node.
+        parents: The parents of this node (a dictionary as an ordered set).
     """
 
     def __init__(self, name):
@@ -34,7 +34,7 @@ class Event:
             name: Identifier for the node.
         """
         self.name = name
-        self.parents = set()
+        self.parents = {}
 
     def is_common(self):
         """Indicates if this node appears in several places."""
@@ -55,7 +55,7 @@ class Event:
             gate: The gate where this node appears.
         """
         assert gate not in self.parents
-        self.parents.add(gate)
+        self.parents[gate] = None
 
 
 class BasicEvent(Event):
@@ -139,10 +139,12 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
         self.mark = None
         self.operator = operator
         self.k_num = k_num
-        self.g_arguments = set()
-        self.b_arguments = set()
-        self.h_arguments = set()
-        self.u_arguments = set()
+        # Dictionaries serve as sets in the order of insertion
+        # to make the output reproducible.
+        self.g_arguments = {}
+        self.b_arguments = {}
+        self.h_arguments = {}
+        self.u_arguments = {}
 
     def num_arguments(self):
         """Returns the number of arguments."""
@@ -163,16 +165,16 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
         Args:
             argument: Gate, HouseEvent, BasicEvent, or Event argument.
         """
-        argument.parents.add(self)
+        argument.parents[self] = None
         if isinstance(argument, Gate):
-            self.g_arguments.add(argument)
+            self.g_arguments[argument] = None
         elif isinstance(argument, BasicEvent):
-            self.b_arguments.add(argument)
+            self.b_arguments[argument] = None
         elif isinstance(argument, HouseEvent):
-            self.h_arguments.add(argument)
+            self.h_arguments[argument] = None
         else:
             assert isinstance(argument, Event)
-            self.u_arguments.add(argument)
+            self.u_arguments[argument] = None
 
     def get_ancestors(self):
         """Collects ancestors from this gate.
-- 
2.43.0


From cba4a25c8f2398a96503ed38e58c790def9c6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 48/67] fix: nested NOT formulas of the generator repeated
 arguments and left unused gates

---
 scripts/fault_tree.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/scripts/fault_tree.py b/scripts/fault_tree.py
index dc15c0d..32626ef 100644
--- a/scripts/fault_tree.py
+++ b/scripts/fault_tree.py
@@ -176,6 +176,22 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
             assert isinstance(argument, Event)
             self.u_arguments[argument] = None
 
+    def get_nested_gates(self):
+        """Collects NOT gate arguments that can be nested in the formula.
+
+        Returns:
+            A list of NOT gates with distinct arguments.
+        """
+        if self.operator == "not":
+            return []
+        nested = {}
+        for gate in self.g_arguments:
+            if gate.operator == "not":
+                arg, = [*gate.b_arguments, *gate.g_arguments]
+                if not (arg in self.b_arguments or arg in self.g_arguments):
+                    nested.setdefault(arg, gate)
+        return list(nested.values())
+
     def get_ancestors(self):
         """Collects ancestors from this gate.
 
@@ -219,9 +235,11 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
             mef_xml += args_to_xml("basic-event", gate.b_arguments)
             mef_xml += args_to_xml("event", gate.u_arguments)
 
+            nested_gates = gate.get_nested_gates() if nest else []
+
             def converter(arg_gate):
                 """Converter for single nesting NOT connective."""
-                if gate.operator != "not" and arg_gate.operator == "not":
+                if arg_gate in nested_gates:
                     return convert_formula(arg_gate)
                 return arg_to_xml("gate", arg_gate)
 
@@ -376,6 +394,9 @@ class FaultTree:  # pylint: disable=too-many-instance-attributes
         sorted_gates = toposort_gates(self.top_gates or [self.top_gate],
                                       self.gates)
         for gate in sorted_gates:
+            if nest and gate.parents and all(gate in parent.get_nested_gates()
+                                             for parent in gate.parents):
+                continue  # only appears as a nested formula
             gate.to_xml(printer, nest)
 
         for ccf_group in self.ccf_groups:
-- 
2.43.0


From 6b5bd19dad0c206f3605b6d638b11c490f38a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 49/67] fix: generator ran forever or failed if it ran out of
 events

---
 scripts/fault_tree_generator.py | 55 ++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 08538db..fe8b4d8 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -506,7 +506,7 @@ def candidate_gates(common_gate):
         yield i
 
 
-def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
+def correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree):
     """Corrects the generation for queue exhaustion.
 
     Corner case when not enough new basic events initialized,
@@ -515,36 +515,60 @@ def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
 
     Args:
         gates_queue: A deque of gates to be initialized.
+        common_basic: A list of common basic events.
         common_gate: A list of common gates.
         fault_tree: The fault tree container of all events and constructs.
     """
     if gates_queue:
         return
-    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
-        # Initialize one more gate
-        # by randomly choosing places in the fault tree.
+
+    def choose_gate():
+        """Randomly chooses a place in the fault tree."""
         random_gate = random.choice(fault_tree.gates)
         while (random_gate.operator == "not" or random_gate.operator == "xor" or
                random_gate in common_gate):
             random_gate = random.choice(fault_tree.gates)
+        return random_gate
+
+    orphan_gates = [x for x in common_gate if x.is_orphan()]
+    if orphan_gates:
+        choose_gate().add_argument(orphan_gates[0])
+        gates_queue.append(orphan_gates[0])
+    elif len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+        # Initialize one more gate
+        # by randomly choosing places in the fault tree.
+        random_gate = choose_gate()
         new_gate = fault_tree.construct_gate()
         random_gate.add_argument(new_gate)
         gates_queue.append(new_gate)
+    else:
+        for basic_event in common_basic:
+            if basic_event.is_orphan():
+                choose_gate().add_argument(basic_event)
 
 
-def choose_basic_event(s_common, common_basic, fault_tree):
+def choose_basic_event(gate, s_common, common_basic, fault_tree):
     """Creates a new basic event or uses a common one for gate arguments.
 
     Args:
+        gate: The gate to get the argument.
         s_common: Sampled factor to choose common basic events.
         common_basic: A list of common basic events to choose from.
         fault_tree: The fault tree container of all events and constructs.
 
     Returns:
         Basic event argument for a gate.
+        None if the gate has all the basic events already.
     """
-    if s_common >= fault_tree.factors.common_b or not common_basic:
-        return fault_tree.construct_basic_event()
+    common_basic = [x for x in common_basic if x not in gate.b_arguments]
+    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+        if s_common >= fault_tree.factors.common_b or not common_basic:
+            return fault_tree.construct_basic_event()
+    elif not common_basic:
+        candidates = [
+            x for x in fault_tree.basic_events if x not in gate.b_arguments
+        ]
+        return random.choice(candidates) if candidates else None
 
     orphans = [x for x in common_basic if not x.parents]
     if orphans:
@@ -585,6 +609,8 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
         # Case when the number of basic events is already satisfied
         if len(fault_tree.basic_events) == fault_tree.factors.num_basic:
             s_common = 0  # use only common nodes
+            if num_tries >= max_tries:
+                s_percent = 1  # no more common gates to use
 
         if s_percent < fault_tree.factors.get_percent_gate():
             # Create a new gate or use a common one
@@ -610,10 +636,16 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
                 gate.add_argument(new_gate)
                 gates_queue.append(new_gate)
         else:
-            gate.add_argument(
-                choose_basic_event(s_common, common_basic, fault_tree))
+            basic_event = choose_basic_event(gate, s_common, common_basic,
+                                             fault_tree)
+            if not basic_event:
+                break
+            gate.add_argument(basic_event)
+
+    if gate.operator == "atleast":
+        gate.k_num = min(gate.k_num, gate.num_arguments() - 1)
 
-    correct_for_exhaustion(gates_queue, common_gate, fault_tree)
+    correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree)
 
 
 def distribute_house_events(fault_tree):
@@ -670,7 +702,8 @@ def generate_fault_tree(ft_name, root_name, factors):
 
     # Estimating the parameters
     num_gate = factors.get_num_gate()
-    num_common_basic = factors.get_num_common_basic(num_gate)
+    num_common_basic = min(factors.get_num_common_basic(num_gate),
+                           factors.num_basic)
     num_common_gate = factors.get_num_common_gate(num_gate)
     common_basic = [
         fault_tree.construct_basic_event() for _ in range(num_common_basic)
-- 
2.43.0


From 2871640b368109d13eb67ef6c12dd42df47712a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 50/67] fix: generator ran forever without a gate for house
 events

---
 scripts/fault_tree_generator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index fe8b4d8..6bdc4b9 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -654,12 +654,15 @@ def distribute_house_events(fault_tree):
     Args:
         fault_tree: The fault tree container of all events and constructs.
     """
+    target_gates = [
+        x for x in fault_tree.gates if x is not fault_tree.top_gate and
+        x.operator != "xor" and x.operator != "not"
+    ]
+    if not target_gates:
+        target_gates = [fault_tree.top_gate]
     while len(fault_tree.house_events) < fault_tree.factors.num_house:
-        target_gate = random.choice(fault_tree.gates)
-        if (target_gate is not fault_tree.top_gate and
-                target_gate.operator != "xor" and
-                target_gate.operator != "not"):
-            target_gate.add_argument(fault_tree.construct_house_event())
+        target_gate = random.choice(target_gates)
+        target_gate.add_argument(fault_tree.construct_house_event())
 
 
 def generate_ccf_groups(fault_tree):
-- 
2.43.0


From b54d9793541c25db42b217f8bb3b3c44d3827b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 51/67] fix: generator created fewer CCF groups than requested

---
 scripts/fault_tree_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 6bdc4b9..7ef5ee6 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -677,11 +677,13 @@ def generate_ccf_groups(fault_tree):
         first_mem = 0
         last_mem = 0
         while len(fault_tree.ccf_groups) < fault_tree.factors.num_ccf:
-            max_args = int(2 * fault_tree.factors.num_args - 2)
+            # Leave enough members for the remaining groups.
+            num_left = (fault_tree.factors.num_ccf -
+                        len(fault_tree.ccf_groups) - 1)
+            max_args = min(int(2 * fault_tree.factors.num_args - 2),
+                           len(members) - first_mem - 2 * num_left)
             group_size = random.randint(2, max_args)
             last_mem = first_mem + group_size
-            if last_mem > len(members):
-                break
             fault_tree.construct_ccf_group(members[first_mem:last_mem])
             first_mem = last_mem
         fault_tree.non_ccf_events = members[first_mem:]
-- 
2.43.0


From 5bd5c5d5d519e414553117d1b42e3b66ea2af7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 52/67] fix: generator failed if the average leaves less than
 two arguments

---
 scripts/fault_tree_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 7ef5ee6..f063101 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -305,7 +305,7 @@ class Factors:  # pylint: disable=too-many-instance-attributes
             gate.k_num = random.randint(2, num_args - 1)
             return num_args
 
-        return random.randint(2, max_args)
+        return random.randint(2, max(2, max_args))
 
     def get_percent_gate(self):
         """Returns the percentage of gates that should be in arguments."""
-- 
2.43.0


From 931772dccfc6a895c7a182ffbeeda5282e38ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 53/67] fix: generator accepted factors without any fault tree

---
 scripts/fault_tree_generator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index f063101..6b6eb32 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -212,11 +212,19 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """Calculates any derived factors from the setup.
 
         This function must be called after all public factors are initialized.
+
+        Raises:
+            FactorError: There is no fault tree for the factors.
         """
+        if self.num_basic < (3 if self.__norm_weights[2] else 2):
+            raise FactorError("Not enough basic events for gate arguments.")
         self.__max_args = Factors.__calculate_max_args(self.num_args,
                                                        self.__norm_weights)
         g_factor = 1 - self.common_g + self.common_g / self.parents_g
         self.__ratio = self.num_args * g_factor - 1
+        # A practical limit to the number of gates.
+        if not self.__num_gate and self.__ratio < 0.01:
+            raise FactorError("Not enough gate arguments for common gates.")
         self.__percent_basic = self.__ratio / (1 + self.__ratio)
         self.__percent_gate = 1 / (1 + self.__ratio)
 
-- 
2.43.0


From 7dc9dfc170007a25941d98fcb4754c663c4be9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 54/67] fix: generator failed for many numbers of gates

---
 scripts/fault_tree_generator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 6b6eb32..dd4da8a 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -379,7 +379,7 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """
         if num_gate < 1:
             raise FactorError("# of gates can't be less than 1.")
-        if num_gate * self.num_args <= self.num_basic:
+        if num_gate * (self.num_args - 1) <= self.num_basic:
             raise FactorError("Not enough gates and avg. # of args "
                               "to achieve the # of basic events")
         self.__num_gate = num_gate
@@ -387,16 +387,18 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         alpha = self.__num_gate / self.num_basic
         common = max(self.common_g, self.common_b)
         min_common = 1 - (1 + alpha) / self.num_args / alpha
-        if common < min_common:
+        if common <= min_common:
             common = round(min_common + 0.05, 1)
-        elif common > 2 * min_common:  # Really hope it does not happen
+            if common <= min_common:  # rounded down
+                common = (1 + min_common) / 2
+        elif common > 2 * min_common:
             common = 2 * min_common
-        assert common < 1  # Very brittle configuration here
+        if common >= 1:
+            raise FactorError("Too many gates for the # of basic events")
 
         self.common_g = common
         self.common_b = common
-        parents = 1 / (1 - min_common / common)
-        assert parents > 2  # This is brittle as well
+        parents = max(2, 1 / (1 - min_common / common))
         self.parents_g = parents
         self.parents_b = parents
 
-- 
2.43.0


From 5d3d72447337cf06dca265ace5c491087ce5a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 55/67] fix: generator failed to summarize a fault tree without
 gate arguments

---
 scripts/fault_tree_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index dd4da8a..b6bea62 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -822,8 +822,8 @@ def calculate_complexity_factors(fault_tree):
         if gate.g_arguments:
             num_common_g = len([x for x in gate.g_arguments if x.is_common()])
             common_g += num_common_g / num_g_arguments
-    common_b /= len([x for x in fault_tree.gates if x.b_arguments])
-    common_g /= len([x for x in fault_tree.gates if x.g_arguments])
+    common_b /= len([x for x in fault_tree.gates if x.b_arguments]) or 1
+    common_g /= len([x for x in fault_tree.gates if x.g_arguments]) or 1
     frac_b /= len(fault_tree.gates)
     return frac_b, common_b, common_g
 
-- 
2.43.0


From d5c41c7bfadccd686a87e1a6ed7f5cee0f751c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 56/67] fix: generator accepted not-a-number and infinite
 factors

---
 scripts/fault_tree_generator.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index b6bea62..f374941 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -112,9 +112,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         Raises:
             FactorError: Invalid values or setup.
         """
-        if min_value < 0 or min_value > 1:
+        if not 0 <= min_value <= 1:
             raise FactorError("Min probability must be in [0, 1] range.")
-        if max_value < 0 or max_value > 1:
+        if not 0 <= max_value <= 1:
             raise FactorError("Max probability must be in [0, 1] range.")
         if min_value > max_value:
             raise FactorError("Min probability > Max probability.")
@@ -135,14 +135,14 @@ class Factors:  # pylint: disable=too-many-instance-attributes
             FactorError: Invalid values or setup.
         """
         max_common = 0.9  # a practical limit (not a formal constraint)
-        if common_b <= 0 or common_b > max_common:
+        if not 0 < common_b <= max_common:
             raise FactorError("common_b not in (0, " + str(max_common) + "].")
-        if common_g <= 0 or common_g > max_common:
+        if not 0 < common_g <= max_common:
             raise FactorError("common_g not in (0, " + str(max_common) + "].")
         max_parent = 100  # also a practical limit
-        if parents_b < 2 or parents_b > max_parent:
+        if not 2 <= parents_b <= max_parent:
             raise FactorError("parents_b not in [2, " + str(max_parent) + "].")
-        if parents_g < 2 or parents_g > max_parent:
+        if not 2 <= parents_g <= max_parent:
             raise FactorError("parents_g not in [2, " + str(max_parent) + "].")
         self.common_b = common_b
         self.common_g = common_g
@@ -161,8 +161,9 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         Raises:
             FactorError: Invalid values or setup.
         """
-        if num_args < 2:
-            raise FactorError("avg. # of gate arguments can't be less than 2.")
+        if not 2 <= num_args < float("inf"):
+            raise FactorError("avg. # of gate arguments must be finite "
+                              "and can't be less than 2.")
         if num_basic < 1:
             raise FactorError("# of basic events must be more than 0.")
         if num_house < 0:
@@ -251,8 +252,8 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         """
         if not weights:
             raise FactorError("No weights are provided")
-        if [i for i in weights if i < 0]:
-            raise FactorError("Weights cannot be negative")
+        if not all(0 <= i < float("inf") for i in weights):
+            raise FactorError("Weights cannot be negative or infinite")
         if len(weights) > len(Factors.__OPERATORS):
             raise FactorError("Too many weights are provided")
         if sum(weights) == 0:
@@ -913,7 +914,7 @@ def manage_cmd_args(argv=None):
                         help="avg. # of gate arguments",
                         metavar="float")
     parser.add_argument("--weights-g",
-                        type=str,
+                        type=float,
                         nargs="+",
                         metavar="float",
                         help="weights for [AND, OR, K/N, NOT, XOR] gates",
@@ -999,7 +1000,7 @@ def setup_factors(args):
                                      args.parents_b, args.parents_g)
     factors.set_num_factors(args.num_args, args.num_basic, args.num_house,
                             args.num_ccf)
-    factors.set_gate_weights([float(i) for i in args.weights_g])
+    factors.set_gate_weights(args.weights_g)
     if args.num_gate:
         factors.constrain_num_gate(args.num_gate)
     factors.calculate()
-- 
2.43.0


From 0b3704caff9607fc2b1095babf4ff9f8e10d7477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 57/67] fix: generator accepted names that are illegal or taken
 by its events

---
 scripts/fault_tree_generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index f374941..a6f020e 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -46,6 +46,7 @@ import random
 import sys
 
 import argparse as ap
+import re
 
 from fault_tree import BasicEvent, HouseEvent, Gate, CcfGroup, FaultTree
 
@@ -1019,6 +1020,11 @@ def main(argv=None):
         FactorError: Invalid setup for factors.
     """
     args = manage_cmd_args(argv)
+    for name in (args.ft_name, args.root):
+        if not re.fullmatch(r"[^\W\d]\w*(-\w+)*", name):
+            raise ap.ArgumentTypeError("Illegal name: " + name)
+    if re.fullmatch(r"[BGH]\d+", args.root):
+        raise ap.ArgumentTypeError("Reserved name: " + args.root)
     factors = setup_factors(args)
     fault_tree = generate_fault_tree(args.ft_name, args.root, factors)
     printer = get_printer(args.out)
-- 
2.43.0


From e684461b11a3e5adf51046aa9e4370ce2718629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 58/67] fix: generator missed the requested number of gates

---
 scripts/fault_tree_generator.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index a6f020e..63bec02 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -339,6 +339,14 @@ class Factors:  # pylint: disable=too-many-instance-attributes
         return int(self.num_basic /
                    (self.__percent_basic * self.num_args * b_factor))
 
+    def is_gate_missing(self, num_gate):
+        """Indicates if there must be more gates than the given number."""
+        return bool(self.__num_gate) and num_gate < self.__num_gate
+
+    def is_gate_allowed(self, num_gate):
+        """Indicates if there can be more gates than the given number."""
+        return not self.__num_gate or num_gate < self.__num_gate
+
     def get_num_common_basic(self, num_gate):
         """Estimates the number of common basic events.
 
@@ -546,7 +554,14 @@ def correct_for_exhaustion(gates_queue, common_basic, common_gate, fault_tree):
     if orphan_gates:
         choose_gate().add_argument(orphan_gates[0])
         gates_queue.append(orphan_gates[0])
-    elif len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+    elif not fault_tree.factors.is_gate_allowed(len(fault_tree.gates)):
+        while len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+            choose_gate().add_argument(fault_tree.construct_basic_event())
+        for basic_event in common_basic:
+            if basic_event.is_orphan():
+                choose_gate().add_argument(basic_event)
+    elif (len(fault_tree.basic_events) < fault_tree.factors.num_basic or
+          fault_tree.factors.is_gate_missing(len(fault_tree.gates))):
         # Initialize one more gate
         # by randomly choosing places in the fault tree.
         random_gate = choose_gate()
@@ -621,8 +636,14 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
         # Case when the number of basic events is already satisfied
         if len(fault_tree.basic_events) == fault_tree.factors.num_basic:
             s_common = 0  # use only common nodes
-            if num_tries >= max_tries:
+            if (num_tries >= max_tries and
+                    not fault_tree.factors.is_gate_missing(
+                        len(fault_tree.gates))):
                 s_percent = 1  # no more common gates to use
+        if (not fault_tree.factors.is_gate_allowed(len(fault_tree.gates)) and
+                (s_common >= fault_tree.factors.common_g or
+                 num_tries >= max_tries)):
+            s_percent = 1  # no new gates
 
         if s_percent < fault_tree.factors.get_percent_gate():
             # Create a new gate or use a common one
@@ -721,7 +742,8 @@ def generate_fault_tree(ft_name, root_name, factors):
     num_gate = factors.get_num_gate()
     num_common_basic = min(factors.get_num_common_basic(num_gate),
                            factors.num_basic)
-    num_common_gate = factors.get_num_common_gate(num_gate)
+    num_common_gate = min(factors.get_num_common_gate(num_gate),
+                          max(num_gate - 1, 0))
     common_basic = [
         fault_tree.construct_basic_event() for _ in range(num_common_basic)
     ]
-- 
2.43.0


From 7d1ec88402543f71fe31b40850c0f72a02aabc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:16 +0000
Subject: [PATCH 59/67] fix: generator hardly ended with small weights of the
 top gate

---
 scripts/fault_tree_generator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 63bec02..b25b164 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -440,9 +440,8 @@ class GeneratorFaultTree(FaultTree):
             root_name: Unique name for the root gate.
         """
         assert not self.top_gate and not self.top_gates
-        operator = self.factors.get_random_operator()
-        while operator in ("xor", "not"):
-            operator = self.factors.get_random_operator()
+        operator, = random.choices(["and", "or", "atleast"],
+                                   self.factors.get_gate_weights()[:3])
         self.top_gate = Gate(root_name, operator)
         self.gates.append(self.top_gate)
 
-- 
2.43.0


From 416bd030e401d8261edf2fe56adeb27105d0db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 60/67] fix: K/N gates could not be added or edited in the
 window

---
 gui/mainwindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de5286b..de3f208 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -1134,7 +1134,7 @@ std::unique_ptr<mef::Formula> MainWindow::extract(const EventDialog &dialog)
     mef::Connective connective = dialog.connective();
     auto minNumber = [&connective, &dialog]() -> std::optional<int> {
         if (connective == mef::kAtleast)
-            dialog.minNumber();
+            return dialog.minNumber();
         return {};
     }();
     return std::make_unique<mef::Formula>(connective, std::move(arg_set),
-- 
2.43.0


From ee04a7e8405fb4fb4b642e0bb33b87a67c1f3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 61/67] fix: accepting the event dialog rounded probabilities
 and rates

---
 gui/eventdialog.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 0897563..e12d940 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -21,6 +21,7 @@
 
 #include <QCompleter>
 #include <QListView>
+#include <QLocale>
 #include <QObject>
 #include <QPushButton>
 #include <QShortcut>
@@ -279,14 +280,17 @@ void EventDialog::setupData(const model::BasicEvent &element)
         if (auto *constExpr = dynamic_cast<mef::ConstantExpression *>(
                 &basicEvent.expression())) {
             expressionType->setCurrentIndex(0);
-            constantValue->setText(QString::number(constExpr->value()));
+            constantValue->setText(
+                QString::number(constExpr->value(), 'g',
+                                QLocale::FloatingPointShortest));
         } else {
             auto *exponentialExpr =
                 dynamic_cast<mef::Exponential *>(&basicEvent.expression());
             GUI_ASSERT(exponentialExpr, );
             expressionType->setCurrentIndex(1);
             exponentialRate->setText(
-                QString::number(exponentialExpr->args().front()->value()));
+                QString::number(exponentialExpr->args().front()->value(), 'g',
+                                QLocale::FloatingPointShortest));
         }
     } else {
         expressionBox->setChecked(false);
-- 
2.43.0


From bedd98c597c24a5a82155c88435fa3338f87ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 62/67] fix: event dialog lost the min number of K/N gates

---
 gui/eventdialog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index e12d940..bb770dd 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -313,12 +313,12 @@ void EventDialog::setupData(const model::Gate &element)
     }
 
     connectiveBox->setCurrentIndex(element.type());
-    if (element.minNumber())
-        minNumberBox->setValue(*element.minNumber());
     for (const mef::Formula::Arg &arg : element.args())
         argsList->addItem(QString::fromStdString(
             ext::as<const mef::Event *>(arg.event)->id()));
     emit formulaArgsChanged(); ///< @todo Bogus signal order conflicts.
+    if (element.minNumber()) // The arguments determine its range.
+        minNumberBox->setValue(*element.minNumber());
 }
 
 std::unique_ptr<mef::Expression> EventDialog::expression() const
-- 
2.43.0


From cd76db2d5c8e851b36ae299406b8a41baabd891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 63/67] fix: event dialog added arguments with incomplete names

---
 gui/eventdialog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index bb770dd..ef38241 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -109,7 +109,7 @@ EventDialog::EventDialog(mef::Model *model, QWidget *parent)
     });
     connect(addArgLine, &QLineEdit::returnPressed, this, [this] {
         QString name = addArgLine->text();
-        if (name.isEmpty())
+        if (!addArgLine->hasAcceptableInput())
             return;
         addArgLine->setStyleSheet(yellowBackground);
         if (hasFormulaArg(name)) {
-- 
2.43.0


From 9ad5c5791a97db64a19eb2055d735e75d50e5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 64/67] fix: incomplete names were accepted for models

---
 gui/mainwindow.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de3f208..65cb6dc 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -76,6 +76,12 @@ public:
     {
         setupUi(this);
         nameLine->setValidator(Validator::name());
+        connect(nameLine, &QLineEdit::textChanged, this,
+                [this](const QString &name) {
+                    buttonBox->button(QDialogButtonBox::Ok)
+                        ->setEnabled(name.isEmpty()
+                                     || nameLine->hasAcceptableInput());
+                });
     }
 };
 
-- 
2.43.0


From dc28282e81b7f94f2a4f09b27d4038a57113cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 65/67] fix: models with exponential events of the window could
 not be saved

---
 share/gui.rng        | 5 ++++-
 src/serialization.cc | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/share/gui.rng b/share/gui.rng
index 23f44b1..37048f3 100644
--- a/share/gui.rng
+++ b/share/gui.rng
@@ -381,7 +381,10 @@
     <define name="exponential">
       <element name="exponential">
         <ref name="expression"/>
-        <ref name="expression"/>
+        <choice>
+          <ref name="expression"/>
+          <element name="system-mission-time"> <empty/> </element>
+        </choice>
       </element>
     </define>
 
diff --git a/src/serialization.cc b/src/serialization.cc
index c9a991b..ffaad76 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -35,6 +35,7 @@
 #include "expression/exponential.h"
 #include "ext/variant.h"
 #include "fault_tree.h"
+#include "parameter.h"
 #include "xml_stream.h"
 
 namespace scram::mef {
@@ -184,6 +185,8 @@ void Serialize(const Expression& expression, xml::StreamElement* parent) {
     assert(exponential->args().size() == 2);
     for (const Expression* arg : exponential->args())
       Serialize(*arg, &xml);
+  } else if (dynamic_cast<const MissionTime*>(&expression)) {
+    parent->AddChild("system-mission-time");
   } else {
     assert(false && "Unsupported expression");
   }
-- 
2.43.0


From 29b4bb1685abbe11d8628a8ec88e0ea19c73c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:29 +0000
Subject: [PATCH 66/67] fix: analyses in the editor use the mission time of the
 settings

---
 gui/mainwindow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index 65cb6dc..e8da00f 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -627,6 +627,7 @@ void MainWindow::createNewModel()
 
     m_inputFiles.clear();
     m_model = std::make_unique<mef::Model>();
+    m_model->mission_time().value(m_settings.mission_time());
 
     emit projectChanged();
 }
@@ -786,6 +787,7 @@ void MainWindow::runAnalysis()
     WaitDialog progress(this);
     //: This is a message shown during the analysis run.
     progress.setLabelText(_("Running analysis..."));
+    m_model->mission_time().value(m_settings.mission_time());
     auto analysis =
         std::make_unique<core::RiskAnalysis>(m_model.get(), m_settings);
     QFutureWatcher<void> futureWatcher;
-- 
2.43.0


From 63314469526ce8d91fdc420cdb102cf2768c8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:29 +0000
Subject: [PATCH 67/67] fix: the settings of a project are in force when its
 model is loaded

---
 gui/mainwindow.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index e8da00f..d82f7fc 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -259,9 +259,12 @@ bool MainWindow::setProjectFile(const std::string &projectFilePath,
         inputFiles.insert(inputFiles.begin(), project.input_files().begin(),
                           project.input_files().end());
         mef::Initializer(inputFiles, project.settings());
-        if (!addInputFiles(inputFiles))
-            return false;
+        core::Settings oldSettings = m_settings;
         m_settings = project.settings();
+        if (!addInputFiles(inputFiles)) {
+            m_settings = oldSettings;
+            return false;
+        }
     } catch (const scram::IOError &err) {
         displayError(err, _("Configuration file error"), this);
         return false;
-- 
2.43.0

