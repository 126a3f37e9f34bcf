From f6fab1b1bc025068a50e4392efe69e1b8bfce471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 01/65] fix: BlockIndex::overlap must detect a segment strictly
 inside another

overlap([2,1],[0,5]) returned false while overlap([0,5],[2,1]) returned true.
---
 src/matrix-view.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 21afd39..51038d4 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -77,7 +77,7 @@ bool BlockIndex::overlap(const segment_t& a, const segment_t& b) {
   size_type bend = b.first + b.second;
 
   if (a.first <= b.first && b.first < aend) return true;
-  if (a.first < bend && bend <= aend) return true;
+  if (b.first <= a.first && a.first < bend) return true;
   return false;
 }
 
-- 
2.43.0


From 266b727cf4c2189b141e907aca727b7cdd4d124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 02/65] fix: BySubstitution::rightHandSide must give the tail
 of the vector to the explicit constraints

---
 src/solver/by-substitution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 3039fb4..ed4b1b7 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -352,7 +352,7 @@ void BySubstitution::rightHandSide(vectorIn_t rhs) {
   const size_type top = parent_t::rightHandSideSize();
   const size_type bot = explicit_.rightHandSideSize();
   parent_t::rightHandSide(rhs.head(top));
-  explicit_.rightHandSide(rhs.head(bot));
+  explicit_.rightHandSide(rhs.tail(bot));
 }
 
 vector_t BySubstitution::rightHandSide() const {
-- 
2.43.0


From 4e91861d455e1c5c0ef47082eb27ad851092c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 03/65] fix: HierarchicalIterative::rightHandSide(vector) must
 index each level from its own start

---
 src/solver/hierarchical-iterative.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9b153ba..b6596f1 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -562,7 +562,7 @@ bool HierarchicalIterative::isConstraintSatisfied(
 }
 
 void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
-  size_type iq = 0, iv = 0;
+  size_type iq = 0;
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     Data& d = datas_[i];
     LiegroupSpacePtr_t space(d.rightHandSide.space());
@@ -571,17 +571,16 @@ void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
     pinocchio::LiegroupElementConstRef output(
         space->elementConstRef(rightHandSide.segment(iq, nq)));
     LiegroupElementRef rhs(
-        space->elementRef(d.rightHandSide.vector().segment(iq, nq)));
+        space->elementRef(d.rightHandSide.vector().segment(0, nq)));
 
     // d.error is used here as an intermediate storage. The value
     // computed is not the error
     d.error = output - space->neutral();  // log (rightHandSide)
     for (size_type k = 0; k < nv; ++k) {
-      if (d.comparison[iv + k] != Equality) assert(d.error[k] == 0);
+      if (d.comparison[k] != Equality) assert(d.error[k] == 0);
     }
     rhs = space->neutral() + d.error;  // exp (d.error)
     iq += nq;
-    iv += nv;
   }
   assert(iq == rightHandSide.size());
 }
-- 
2.43.0


From 4bf81516985b5ee382372044f28bc7e8f217ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 04/65] fix: BySubstitution::extract must not modify the
 explicit constraints of the original

---
 src/solver/by-substitution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index ed4b1b7..553fba1 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -135,7 +135,7 @@ BySubstitution BySubstitution::extract(interval_t interval) {
     }
     ++oldIt;
   }
-  explicit_.replace(oldToNew);
+  res.explicit_.replace(oldToNew);
   return res;
 }
 
-- 
2.43.0


From e198d87c983dbe1ce16c8966d3906805fe9f79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 05/65] fix: inactive inequality rows must not contribute to
 the error of the solver

---
 src/solver/hierarchical-iterative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index b6596f1..98bbb1b 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -630,7 +630,6 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     assert(hpp::pinocchio::checkNormalized(d.output));
     assert(hpp::pinocchio::checkNormalized(d.rightHandSide));
     d.error = d.output - d.rightHandSide;
-    constraints.setInactiveRowsToZero(d.error);
     if (ComputeJac) {
       f.jacobian(d.jacobian, config);
       d.output.space()->dDifference_dq1<pinocchio::DerivativeTimesInput>(
@@ -638,6 +637,7 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     }
     applyComparison<ComputeJac>(d.comparison, d.inequalityIndices, d.error,
                                 d.jacobian, inequalityThreshold_);
+    constraints.setInactiveRowsToZero(d.error);
 
     // Copy columns that are not reduced
     if (ComputeJac) d.reducedJ = d.activeRowsOfJ.rview(d.jacobian);
-- 
2.43.0


From 4056c2c7a61dc17db8e88ea1f151b01c7e0abbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 06/65] fix: isConstraintSatisfied must take inequality
 comparisons into account

---
 src/solver/hierarchical-iterative.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 98bbb1b..198f006 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -556,7 +556,15 @@ bool HierarchicalIterative::isConstraintSatisfied(
   LiegroupElementRef rhs(d.rightHandSide.vector().segment(iq, nq),
                          f->outputSpace());
   f->value(output, arg);
-  error = output - rhs;
+  vector_t diff(output - rhs);
+  const ComparisonTypes_t& comparison(constraint->comparisonType());
+  std::vector<std::size_t> inequalities;
+  for (std::size_t k = 0; k < comparison.size(); ++k)
+    if (comparison[k] == Superior || comparison[k] == Inferior)
+      inequalities.push_back(k);
+  applyComparison<false>(comparison, inequalities, diff, d.jacobian,
+                         inequalityThreshold_);
+  error = diff;
   constraint->setInactiveRowsToZero(error);
   return (error.squaredNorm() < squaredErrorThreshold_);
 }
-- 
2.43.0


From 13e70dee071d0504ca5196fea8410fdbc7663d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 07/65] fix: inactive rows of explicit constraints must not
 count in their satisfaction

---
 src/explicit-constraint-set.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/explicit-constraint-set.cc b/src/explicit-constraint-set.cc
index 290d8e2..a4f9f39 100644
--- a/src/explicit-constraint-set.cc
+++ b/src/explicit-constraint-set.cc
@@ -78,6 +78,7 @@ bool ExplicitConstraintSet::isSatisfied(vectorIn_t arg, vectorOut_t error,
     size_type nRows(h.outputSpace()->nv());
     assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
     error.segment(row, nRows) = d.h_value - d.rhs_implicit;
+    d.constraint->setInactiveRowsToZero(error.segment(row, nRows));
     squaredNorm =
         std::max(squaredNorm, error.segment(row, nRows).squaredNorm());
     row += nRows;
@@ -109,6 +110,7 @@ bool ExplicitConstraintSet::isConstraintSatisfied(
       assert(error.size() == h.outputSpace()->nv());
       assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
       error = d.h_value - d.rhs_implicit;
+      d.constraint->setInactiveRowsToZero(error);
       squaredNorm = error.squaredNorm();
       constraintFound = true;
       return squaredNorm < errorThreshold_ * errorThreshold_;
-- 
2.43.0


From 3e0ebf2f7e696a600ac4ef5b2097c0ecdb56fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 08/65] fix: descent direction must start from zero when the
 first level has no active row

---
 src/solver/hierarchical-iterative.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 198f006..b0f3af5 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -777,6 +777,8 @@ void HierarchicalIterative::computeDescentDirection() const {
     // dQ_1 = dQ_0 + P_0 * M+_1 * (-f_1(q) - J_1 * dQ_1)
     //  P_1 = P_0 * K_1
     matrix_t* projector = NULL;
+    // The first levels may have no active row.
+    dqSmall_.setZero();
     for (std::size_t i = 0; i < stacks_.size(); ++i) {
       Data& d = datas_[i];
 
-- 
2.43.0


From 00756ddffb00fe8bcfae32b7f91ae82e1dca20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 09/65] fix: optional last level with no priority level at all

---
 src/solver/hierarchical-iterative.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index b0f3af5..39f258e 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -699,8 +699,9 @@ void HierarchicalIterative::getReducedJacobian(matrixOut_t J) const {
 }
 
 void HierarchicalIterative::computeError() const {
-  const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+  const std::size_t end = (lastIsOptional_ && !stacks_.empty())
+                              ? stacks_.size() - 1
+                              : stacks_.size();
   squaredNorm_ = 0;
   for (std::size_t i = 0; i < end; ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
@@ -842,8 +843,9 @@ std::ostream& HierarchicalIterative::print(std::ostream& os) const {
      << ", error threshold: " << errorThreshold() << iendl << "dimension "
      << dimension() << iendl << "reduced dimension " << reducedDimension()
      << iendl << "free variables: " << freeVariables_ << incindent;
-  const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+  const std::size_t end = (lastIsOptional_ && !stacks_.empty())
+                              ? stacks_.size() - 1
+                              : stacks_.size();
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
         stacks_[i].constraints());
-- 
2.43.0


From 863bd4e07b2550247a940ef2259c0fe59470ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 10/65] fix: a priority level may be empty while lower ones are
 not

---
 src/solver/hierarchical-iterative.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 39f258e..c2290e1 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -338,6 +338,7 @@ HierarchicalIterative HierarchicalIterative::extract(
 ArrayXb HierarchicalIterative::activeParameters() const {
   ArrayXb ap(ArrayXb::Constant(configSpace_->nq(), false));
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
+    if (stacks_[i].constraints().empty()) continue;
 #ifndef NDEBUG
     dynamic_cast<const DifferentiableFunctionSet&>(stacks_[i].function());
 #endif
@@ -351,6 +352,7 @@ ArrayXb HierarchicalIterative::activeParameters() const {
 ArrayXb HierarchicalIterative::activeDerivativeParameters() const {
   ArrayXb ap(ArrayXb::Constant(configSpace_->nv(), false));
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
+    if (stacks_[i].constraints().empty()) continue;
 #ifndef NDEBUG
     dynamic_cast<const DifferentiableFunctionSet&>(stacks_[i].function());
 #endif
@@ -383,9 +385,10 @@ void HierarchicalIterative::update() {
     datas_[i].rightHandSide.setNeutral();
     datas_[i].error.resize(f.outputSpace()->nv());
 
-    assert(configSpace_->nv() == f.inputDerivativeSize());
-    datas_[i].jacobian.resize(f.outputDerivativeSize(),
-                              f.inputDerivativeSize());
+    // A level may have no constraint yet
+    assert(constraints.constraints().empty() ||
+           configSpace_->nv() == f.inputDerivativeSize());
+    datas_[i].jacobian.resize(f.outputDerivativeSize(), configSpace_->nv());
     datas_[i].jacobian.setZero();
     datas_[i].reducedJ.resize(datas_[i].activeRowsOfJ.nbRows(), reducedSize);
 
@@ -437,6 +440,7 @@ vector_t HierarchicalIterative::rightHandSideFromConfig(
     ConfigurationIn_t config) {
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     ImplicitConstraintSet& ics = stacks_[i];
+    if (ics.constraints().empty()) continue;
     Data& d = datas_[i];
     ics.rightHandSideFromConfig(config, d.rightHandSide);
   }
@@ -631,6 +635,7 @@ template <bool ComputeJac>
 void HierarchicalIterative::computeValue(vectorIn_t config) const {
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     const ImplicitConstraintSet& constraints(stacks_[i]);
+    if (constraints.constraints().empty()) continue;
     const DifferentiableFunction& f = constraints.function();
     Data& d = datas_[i];
 
-- 
2.43.0


From b49e17752ef87cc3d2519a40a05c210adbe635da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 11/65] fix: Jacobian of the implicit form of explicit
 constraints with several output Lie groups

---
 src/explicit/implicit-function.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index 717b192..cd79626 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -252,19 +252,19 @@ void ImplicitFunction::impl_jacobian(matrixOut_t jacobian,
 void ImplicitFunction::computeJacobianBlocks() {
   segments_t remainingCols(outputDerivIntervals_.indices());
   segments_t cols;
-  size_type iv = 0, nv;
+  size_type nv;
   std::size_t rank = 0;
   for (std::vector<LiegroupType>::const_iterator it =
            inputToOutput_->outputSpace()->liegroupTypes().begin();
        it != inputToOutput_->outputSpace()->liegroupTypes().end(); ++it) {
     nv = inputToOutput_->outputSpace()->nv(rank);
     cols = BlockIndex::split(remainingCols, nv);
-    segments_t rows(1, std::make_pair(iv, nv));
+    // Row indices are relative to the first row of the Lie group
+    segments_t rows(1, std::make_pair(0, nv));
     outJacobian_.push_back(Eigen::MatrixBlocks<false, false>(rows, cols));
     inJacobian_.push_back(Eigen::MatrixBlocks<false, false>(
         rows, inputDerivIntervals_.indices()));
     //
-    iv += nv;
     ++rank;
   }
 }
-- 
2.43.0


From 0388de0c40cc9be407f5a6e642fd7f1eefc2b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 12/65] fix: a copied solver must not share the output spaces
 of the original

---
 src/solver/hierarchical-iterative.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index c2290e1..7dc3dcd 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -250,6 +250,14 @@ HierarchicalIterative::HierarchicalIterative(const HierarchicalIterative& other)
   for (auto& ics : stacks_) {
     ics.replace(oldToNew);
   }
+  // Values and right hand sides should refer to the output spaces of the new
+  // stacks, since those of the original ones change with them.
+  for (std::size_t i = 0; i < stacks_.size(); ++i) {
+    LiegroupSpacePtr_t space(stacks_[i].function().outputSpace());
+    Data& d = datas_[i];
+    d.output = LiegroupElement(d.output.vector(), space);
+    d.rightHandSide = LiegroupElement(d.rightHandSide.vector(), space);
+  }
 }
 
 bool HierarchicalIterative::contains(
-- 
2.43.0


From 26a5cfb94a92e891b7b4e865978bb0cdecfa09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:33 +0000
Subject: [PATCH 13/65] fix: a level without freedom left by higher priorities
 must not generate a step

---
 src/solver/hierarchical-iterative.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 7dc3dcd..8f4af0a 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -818,7 +818,12 @@ void HierarchicalIterative::computeDescentDirection() const {
           // TODO Eigen::JacobiSVD does a dynamic allocation here.
           dqSmall_ += d.svd.solve(err);
         } else {
-          d.svd.compute(d.reducedJ * *projector);
+          matrix_t projected(d.reducedJ * *projector);
+          // The rank is evaluated relatively to the greatest singular value:
+          // rounding errors should not be taken for a direction of descent.
+          if (projected.norm() <= SVD_THRESHOLD * d.reducedJ.norm())
+            projected.setZero();
+          d.svd.compute(projected);
           // TODO Eigen::JacobiSVD does a dynamic allocation here.
           dqSmall_ += *projector * d.svd.solve(err);
         }
-- 
2.43.0


From 81542b1cc2d4b1368aeb33f10a30ee432adae808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 14/65] fix: a satisfying configuration is a success even when
 no degree of freedom is left

---
 include/hpp/constraints/solver/impl/by-substitution.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index a02dbd4..cb20420 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -79,7 +79,8 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
   }
 
   bool errorIsAboveThr = (squaredNorm_ > .25 * squaredErrorThreshold_);
-  if (errorIsAboveThr && reducedDimension_ == 0) return INFEASIBLE;
+  if (errorIsAboveThr && reducedDimension_ == 0)
+    return errorWasBelowThr ? SUCCESS : INFEASIBLE;
   if (optimize && !errorIsAboveThr) qopt = arg;
 
   Status status = SUCCESS;
-- 
2.43.0


From 6ecb49fd7cab892f43c5a706d4a2951363ecf79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 15/65] fix: optimizing an optional level that does not exist
 read outside the list of levels

---
 include/hpp/constraints/solver/impl/by-substitution.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index cb20420..b768398 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -38,7 +38,7 @@ typedef Eigen::NumTraits<value_type> NumTraits;
 template <typename LineSearchType>
 inline HierarchicalIterative::Status BySubstitution::impl_solve(
     vectorOut_t arg, bool _optimize, LineSearchType lineSearch) const {
-  bool optimize = _optimize && lastIsOptional_;
+  bool optimize = _optimize && lastIsOptional_ && !stacks_.empty();
   assert(!arg.hasNaN());
 
   // An explicit constraint may be defined over only a subspace of its input
-- 
2.43.0


From b6f9742a7b8839691067922f02ff1d9d766b5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 16/65] fix: optimization must keep the best visited
 configuration that satisfies the constraints

---
 include/hpp/constraints/solver/impl/by-substitution.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index b768398..bc12b2d 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -136,7 +136,7 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
     if (optimize) {
       if (!errorIsAboveThr) {
         value_type cost = datas_.back().error.squaredNorm();
-        if (cost < previousCost) {
+        if (qopt.size() == 0 || cost < previousCost) {
           qopt = arg;
           previousCost = cost;
           if (scaling < 0.5) scaling *= 2;
-- 
2.43.0


From 5e9d41fd255a7b565b7292635379e0e33a331586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 17/65] fix: there is no step to compute when the constraints
 leave no row in the Jacobian

---
 src/solver/hierarchical-iterative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 8f4af0a..63e756a 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -765,7 +765,7 @@ bool HierarchicalIterative::definesSubmanifoldOf(
 void HierarchicalIterative::computeDescentDirection() const {
   sigma_ = std::numeric_limits<value_type>::max();
 
-  if (stacks_.empty()) {
+  if (stacks_.empty() || reducedDimension_ == 0) {
     dq_.setZero();
     return;
   }
-- 
2.43.0


From 2229dfa4fd777d0f0a261027a67b180ae1d1b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 18/65] fix: a saturated degree of freedom stays flagged when
 several configuration variables share it

---
 src/solver/hierarchical-iterative.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 63e756a..64089b1 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -130,7 +130,6 @@ bool clamp(const value_type& lb, const value_type& ub, const value_type& v,
     return true;
   } else {
     vsat = v;
-    s = 0;
     return false;
   }
 }
@@ -138,6 +137,9 @@ bool clamp(const value_type& lb, const value_type& ub, const value_type& v,
 bool Bounds::saturate(vectorIn_t q, vectorOut_t qSat,
                       Eigen::VectorXi& saturation) {
   bool sat = false;
+  // Several configuration variables may correspond to the same velocity
+  // variable.
+  saturation.setZero();
   for (size_type i = 0; i < q.size(); ++i)
     if (clamp(lb[i], ub[i], q[i], qSat[i], saturation[iq2iv_[i]])) sat = true;
   return sat;
@@ -146,6 +148,9 @@ bool Bounds::saturate(vectorIn_t q, vectorOut_t qSat,
 bool Device::saturate(vectorIn_t q, vectorOut_t qSat, Eigen::VectorXi& sat) {
   bool ret = false;
   const pinocchio::Model& m = device->model();
+  // Several configuration variables may correspond to the same velocity
+  // variable.
+  sat.setZero();
 
   for (std::size_t i = 1; i < m.joints.size(); ++i) {
     const size_type nq = m.joints[i].nq();
-- 
2.43.0


From 939eba8e85811bdcf5d868af616c5acb13aaed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 19/65] fix: restored implicit constraints have no storage for
 their right hand side

---
 src/implicit.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index 16a46fe..d1f01a6 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -255,6 +255,8 @@ void Implicit::serialize(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(mask_);
   ar& BOOST_SERIALIZATION_NVP(weak_);
   if (!Archive::is_saving::value) {
+    output_ = LiegroupElement(function_->outputSpace());
+    logOutput_.resize(function_->outputSpace()->nv());
     computeActiveRows();
     computeIndices();
   }
-- 
2.43.0


From 8dc20f86f44ccfbb7ce884acbd8d40faf6127484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 20/65] fix: restore thresholds, options, right hand sides and
 saturation of solvers

---
 .../constraints/explicit-constraint-set.hh    |  2 ++
 src/solver/by-substitution.cc                 |  8 +++++++
 src/solver/hierarchical-iterative.cc          | 23 ++++++++++++++++---
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/explicit-constraint-set.hh b/include/hpp/constraints/explicit-constraint-set.hh
index 20edcb9..7258174 100644
--- a/include/hpp/constraints/explicit-constraint-set.hh
+++ b/include/hpp/constraints/explicit-constraint-set.hh
@@ -522,7 +522,9 @@ class HPP_CONSTRAINTS_DLLAPI ExplicitConstraintSet {
     arg_.resize(space->nq());
     diff_.resize(space->nv());
 
+    notOutArgs_ = RowBlockIndices();
     notOutArgs_.addRow(0, space->nq());
+    notOutDers_ = ColBlockIndices();
     notOutDers_.addCol(0, space->nv());
   }
 
diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 553fba1..c1b0bba 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -37,6 +37,7 @@
 #include <hpp/pinocchio/liegroup-element.hh>
 #include <hpp/pinocchio/util.hh>
 #include <hpp/util/serialization.hh>
+#include <pinocchio/serialization/eigen.hpp>
 
 namespace hpp {
 namespace constraints {
@@ -388,7 +389,12 @@ void BySubstitution::load(Archive& ar, const unsigned int version) {
   LiegroupSpacePtr_t space;
   ar& BOOST_SERIALIZATION_NVP(space);
   explicit_.init(space);
+  JeExpanded_.resize(space->nv(), space->nv());
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
+  explicit_.errorThreshold(errorThreshold());
+  vector_t explicitRightHandSide;
+  ar& BOOST_SERIALIZATION_NVP(explicitRightHandSide);
+  explicit_.rightHandSide(explicitRightHandSide);
 }
 
 template <class Archive>
@@ -398,6 +404,8 @@ void BySubstitution::save(Archive& ar, const unsigned int version) const {
   LiegroupSpacePtr_t space(explicit_.configSpace());
   ar& BOOST_SERIALIZATION_NVP(space);
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
+  vector_t explicitRightHandSide(explicit_.rightHandSide());
+  ar& BOOST_SERIALIZATION_NVP(explicitRightHandSide);
 }
 
 HPP_SERIALIZATION_SPLIT_IMPLEMENT(BySubstitution);
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 64089b1..d332ae2 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -911,13 +911,19 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
   ar& BOOST_SERIALIZATION_NVP(configSpace_);
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
 
-  saturation_.resize(configSpace_->nq());
+  saturation_.resize(configSpace_->nv());
   qSat_.resize(configSpace_->nq());
   OM_.resize(configSpace_->nv());
   OP_.resize(configSpace_->nv());
+  dimension_ = 0;
+  reducedDimension_ = 0;
+  sigma_ = 0;
+  squaredNorm_ = 0;
   // Initialize freeVariables_ to all indices.
+  freeVariables_ = Indices_t();
   freeVariables_.addRow(0, configSpace_->nv());
 
   NumericalConstraints_t constraints;
@@ -927,7 +933,15 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
 
   for (std::size_t i = 0; i < constraints.size(); ++i)
     add(constraints[i], priorities[i]);
-  // TODO load the right hand side.
+  // Adding constraints resets the right hand sides.
+  vector_t rightHandSide;
+  ar& BOOST_SERIALIZATION_NVP(rightHandSide);
+  size_type row = 0;
+  for (Data& d : datas_) {
+    const size_type nRows = d.rightHandSide.space()->nq();
+    d.rightHandSide.vector() = rightHandSide.segment(row, nRows);
+    row += nRows;
+  }
 }
 
 template <class Archive>
@@ -939,6 +953,7 @@ void HierarchicalIterative::save(Archive& ar,
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
   ar& BOOST_SERIALIZATION_NVP(configSpace_);
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
   ar& BOOST_SERIALIZATION_NVP(constraints_);
   std::vector<std::size_t> priorities(constraints_.size());
@@ -953,7 +968,8 @@ void HierarchicalIterative::save(Archive& ar,
       priorities[i] = c->second;
   }
   ar& BOOST_SERIALIZATION_NVP(priorities);
-  // TODO save the right hand side.
+  vector_t rightHandSide(HierarchicalIterative::rightHandSide());
+  ar& BOOST_SERIALIZATION_NVP(rightHandSide);
 }
 
 HPP_SERIALIZATION_SPLIT_IMPLEMENT(HierarchicalIterative);
@@ -984,6 +1000,7 @@ void serialize(Archive& ar, saturation::Bounds& o, const unsigned int version) {
                                                          version);
   hpp::serialization::remove_duplicate::serialize_vector(ar, "ub", o.ub,
                                                          version);
+  ar& make_nvp("iq2iv", o.iq2iv_);
 }
 }  // namespace serialization
 }  // namespace boost
-- 
2.43.0


From 91c746519e89dd989dec3351ebaecc37c7466c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 21/65] fix: a function of a parameter subset leaves the other
 columns of its Jacobian unset

---
 include/hpp/constraints/function/of-parameter-subset.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/function/of-parameter-subset.hh b/include/hpp/constraints/function/of-parameter-subset.hh
index aac7a98..ce1b9ba 100644
--- a/include/hpp/constraints/function/of-parameter-subset.hh
+++ b/include/hpp/constraints/function/of-parameter-subset.hh
@@ -83,6 +83,8 @@ class HPP_CONSTRAINTS_DLLAPI OfParameterSubset : public DifferentiableFunction {
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.leftCols(sd_.first).setZero();
+    J.rightCols(J.cols() - sd_.first - sd_.second).setZero();
     g_->jacobian(J.middleCols(sd_.first, sd_.second),
                  arg.segment(sa_.first, sa_.second));
   }
-- 
2.43.0


From 001fc42af3150c1637bad7b4683210d693f49f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 22/65] fix: Jacobian of a difference of functions with values
 in a Lie group

---
 include/hpp/constraints/function/difference.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index 1520a8a..cb92c78 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -67,11 +67,19 @@ class HPP_CONSTRAINTS_LOCAL Difference
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    using pinocchio::DerivativeTimesInput;
+    J.setZero();
+    inner_->value(l_, arg.segment(lsa_.first, lsa_.second));
+    inner_->value(r_, arg.segment(rsa_.first, rsa_.second));
     inner_->jacobian(J.middleCols(lsd_.first, lsd_.second),
                      arg.segment(lsa_.first, lsa_.second));
     inner_->jacobian(J.middleCols(rsd_.first, rsd_.second),
                      arg.segment(rsa_.first, rsa_.second));
-    J.middleCols(rsd_.first, rsd_.second) *= -1;
+    // Derivative of l - r in the output Lie group
+    inner_->outputSpace()->dDifference_dq1<DerivativeTimesInput>(
+        r_.vector(), l_.vector(), J.middleCols(lsd_.first, lsd_.second));
+    inner_->outputSpace()->dDifference_dq0<DerivativeTimesInput>(
+        r_.vector(), l_.vector(), J.middleCols(rsd_.first, rsd_.second));
   }
 
   bool isEqual(const DifferentiableFunction& other) const {
-- 
2.43.0


From 2c39a27b5477f291488ed3f98d2f4bbf44c7b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 23/65] fix: Jacobian of the restriction of a function to an
 interval was evaluated at the wrong parameter

---
 src/extracted-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index 91c3335..a119dc7 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -69,7 +69,7 @@ class ExtractedFunction : public DifferentiableFunction {
       original_->jacobian(jacobian, param);
       jacobian *= -1;
     } else {
-      param[0] = arg[0] - t1_;
+      param[0] = t1_ + arg[0];
       return original_->jacobian(jacobian, param);
     }
   }
-- 
2.43.0


From c837312552f578a639c6769cf496aeec7aa97052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 24/65] fix: Jacobian of implicit forms of explicit constraints
 with outputs in SO(3) or SE(2)

---
 src/explicit/implicit-function.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index cd79626..bf0328f 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -46,6 +46,7 @@ typedef Eigen::Map<const Quaternion_t> QuatConstMap_t;
 typedef hpp::pinocchio::liegroup::VectorSpaceOperation<3, false> R3;
 typedef hpp::pinocchio::liegroup::SpecialOrthogonalOperation<3> SO3;
 typedef hpp::pinocchio::liegroup::CartesianProductOperation<R3, SO3> R3xSO3;
+typedef pinocchio::liegroup::SpecialEuclideanOperation<2> SE2;
 typedef pinocchio::liegroup::SpecialEuclideanOperation<3> SE3;
 typedef hpp::pinocchio::LiegroupType LiegroupType;
 
@@ -64,6 +65,18 @@ struct JacobianVisitor : public boost::static_visitor<> {
   template <typename LgT>
   void operator()(const LgT&);
 
+  /// Jacobian of qOut - f (qIn) in a Lie group that is not commutative
+  void difference(const LiegroupType& type) {
+    using pinocchio::DerivativeTimesInput;
+    LiegroupSpacePtr_t space(LiegroupSpace::create(type));
+    matrix_t J(matrix_t::Identity(space->nv(), space->nv()));
+    space->dDifference_dq1<DerivativeTimesInput>(f_qIn_, qOut_, J);
+    outJacobian_.lview(result_) = J;
+    J = Jf_;
+    space->dDifference_dq0<DerivativeTimesInput>(f_qIn_, qOut_, J);
+    inJacobian_.lview(result_) = J;
+  }
+
   vectorIn_t qOut_, f_qIn_;
   matrixIn_t Jf_;
   const Eigen::MatrixBlocks<false, false>& outJacobian_;
@@ -140,6 +153,16 @@ inline void JacobianVisitor::operator()<SE3>(const SE3&) {
   inJacobian_.lview(result_) = Jlog_Mf_inverse_Mout * inJ;
 }
 
+template <>
+inline void JacobianVisitor::operator()<SO3>(const SO3& lg) {
+  difference(lg);
+}
+
+template <>
+inline void JacobianVisitor::operator()<SE2>(const SE2& lg) {
+  difference(lg);
+}
+
 template <typename LgT>
 void JacobianVisitor::operator()(const LgT&) {
   outJacobian_.lview(result_).setIdentity();
-- 
2.43.0


From da4c21b794c94975fa18020f7a2a88a4d99dbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 25/65] fix: extracting no index from a set of segments

---
 src/matrix-view.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 51038d4..47d85d0 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -211,6 +211,8 @@ BlockIndex::segments_t BlockIndex::extract(const segments_t& segments,
                                            size_type cardinal) {
   assert(start >= 0);
   assert(cardinal >= 0);
+  // No index to extract, possibly from no segment.
+  if (cardinal == 0) return segments_t();
   assert(segments[0].first >= 0);
   assert(start + cardinal <= BlockIndex::cardinal(segments));
   segments_t result;
-- 
2.43.0


From 7ac3c79609dcf6721c86a379b0db0463ba7249a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 26/65] fix: constant functions were equal when their values
 differ

---
 include/hpp/constraints/affine-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/affine-function.hh b/include/hpp/constraints/affine-function.hh
index 616f6a6..04d7968 100644
--- a/include/hpp/constraints/affine-function.hh
+++ b/include/hpp/constraints/affine-function.hh
@@ -183,7 +183,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConstantFunction : public DifferentiableFunction {
         dynamic_cast<const ConstantFunction&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (c_.vector() == castother.c_.vector()) return false;
+    if (c_.vector() != castother.c_.vector()) return false;
 
     return true;
   }
-- 
2.43.0


From 4bdab6174ee0f0f15e4a534c8bd705c31b70d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 27/65] fix: restrictions of a function to different intervals
 were equal

---
 src/extracted-function.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index a119dc7..26c8b26 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -74,6 +74,17 @@ class ExtractedFunction : public DifferentiableFunction {
     }
   }
 
+ protected:
+  bool isEqual(const DifferentiableFunction& other) const {
+    const ExtractedFunction& castother =
+        dynamic_cast<const ExtractedFunction&>(other);
+    if (!DifferentiableFunction::isEqual(other)) return false;
+    if (original_ != castother.original_) return false;
+    if (reversed_ != castother.reversed_) return false;
+    if (t1_ != castother.t1_) return false;
+    return true;
+  }
+
  private:
   ExtractedFunction(const DifferentiableFunctionPtr_t& original,
                     interval_t paramRange)
-- 
2.43.0


From a1071ceebf5e8e169885b4ff3f678ccaa1a6b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 28/65] fix: implicit constraints with different masks were
 equal

---
 src/implicit.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index d1f01a6..8c75964 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -180,6 +180,7 @@ Implicit::Implicit(const Implicit& other)
 
 bool Implicit::isEqual(const Implicit& other, bool swapAndTest) const {
   if (comparison_ != other.comparison_) return false;
+  if (mask_ != other.mask_) return false;
   if (rhs_.size() != other.rhs_.size()) return false;
   if (function_ != other.function_ && *function_ != *other.function_)
     return false;
-- 
2.43.0


From 646068e869032427e41977e0fb2b74ebb8774bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 29/65] fix: equality of stacks of functions depended on their
 last evaluation

---
 include/hpp/constraints/differentiable-function-set.hh | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index 5a578ef..538e33f 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -131,9 +131,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (functions_ != castother.functions_) return false;
-    if (result_.size() != castother.result_.size()) return false;
-    for (std::size_t i = 0; i < result_.size(); i++)
-      if (result_[i] != castother.result_[i]) return false;
 
     return true;
   }
-- 
2.43.0


From efe0276cf82f7ea644737a52e20eaba5dbde8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 30/65] fix: equality of manipulability functions depended on
 their last evaluation

---
 include/hpp/constraints/manipulability.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/hpp/constraints/manipulability.hh b/include/hpp/constraints/manipulability.hh
index 52efbbe..66edead 100644
--- a/include/hpp/constraints/manipulability.hh
+++ b/include/hpp/constraints/manipulability.hh
@@ -72,8 +72,6 @@ class HPP_CONSTRAINTS_DLLAPI Manipulability : public DifferentiableFunction {
     if (function_ != castother.function_) return false;
     if (robot_ != castother.robot_) return false;
     if (cols_.cols() != castother.cols_.cols()) return false;
-    if (J_ != castother.J_) return false;
-    if (J_JT_ != castother.J_JT_) return false;
 
     return true;
   }
-- 
2.43.0


From eba1cdd542ff6a5eaacbf86a20ddf98327fe225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 31/65] fix: transformations of different joints or frames were
 equal

---
 include/hpp/constraints/generic-transformation.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hpp/constraints/generic-transformation.hh b/include/hpp/constraints/generic-transformation.hh
index b578975..9fdd1b7 100644
--- a/include/hpp/constraints/generic-transformation.hh
+++ b/include/hpp/constraints/generic-transformation.hh
@@ -352,6 +352,12 @@ class HPP_CONSTRAINTS_DLLAPI GenericTransformation
     if (!DifferentiableFunction::isEqual(other)) return false;
     if (robot_ != castother.robot_) return false;
     if (mask_ != castother.mask_) return false;
+    if (Joint::index(joint1()) != Joint::index(castother.joint1()))
+      return false;
+    if (Joint::index(joint2()) != Joint::index(castother.joint2()))
+      return false;
+    if (m_.F1inJ1 != castother.m_.F1inJ1) return false;
+    if (m_.F2inJ2 != castother.m_.F2inJ2) return false;
 
     return true;
   }
-- 
2.43.0


From 86eb494639c6de5f2f50505f1ea8d4e7b9858d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 32/65] fix: relative centers of mass with different references
 were equal

---
 include/hpp/constraints/relative-com.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index f7428b1..b8c8377 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -111,6 +111,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
     if (robot_ != castother.robot_) return false;
     if (comc_ != castother.comc_) return false;
     if (joint_ != castother.joint_) return false;
+    if (reference_ != castother.reference_) return false;
     if (mask_ != castother.mask_) return false;
     if (nominalCase_ != castother.nominalCase_) return false;
 
-- 
2.43.0


From a9a968b70cffb3d6312f47d9833c0330be9aa1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 33/65] fix: equality of contacts compared neither all floors
 nor the objects

---
 src/convex-shape-contact.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index e58dd9d..7d31bab 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -74,7 +74,12 @@ bool ConvexShapeContact::isEqual(const DifferentiableFunction& other) const {
   if (robot_ != castother.robot_) return false;
   if (objectConvexShapes_.size() != castother.objectConvexShapes_.size())
     return false;
+  if (floorConvexShapes_.size() != castother.floorConvexShapes_.size())
+    return false;
   for (std::size_t i = 0; i < objectConvexShapes_.size(); i++)
+    if (objectConvexShapes_[i] != castother.objectConvexShapes_[i])
+      return false;
+  for (std::size_t i = 0; i < floorConvexShapes_.size(); i++)
     if (floorConvexShapes_[i] != castother.floorConvexShapes_[i]) return false;
   return true;
 }
-- 
2.43.0


From 0e89c6229f2c8a9eb19df5dca383d4fd447ec294 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 34/65] fix: expressions were created with uninitialized
 validity flags

---
 include/hpp/constraints/symbolic-calculus.hh | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 7552cd0..e8743a2 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -189,13 +189,27 @@ template <class T, class ValueType = vector3_t,
           class JacobianType = JacobianMatrix, class CrossType = CrossMatrix>
 class CalculusBase : public CalculusBaseAbstract<ValueType, JacobianType> {
  public:
-  CalculusBase() : cross_(CrossMatrix::Zero()) {}
+  CalculusBase()
+      : cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const ValueType& value, const JacobianType& jacobian)
-      : value_(value), jacobian_(jacobian), cross_(CrossMatrix::Zero()) {}
+      : value_(value),
+        jacobian_(jacobian),
+        cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const CalculusBase& o)
-      : value_(o.value()), jacobian_(o.jacobian_), cross_(o.cross()) {}
+      : value_(o.value()),
+        jacobian_(o.jacobian_),
+        cross_(o.cross()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   inline const ValueType& value() const { return value_; }
   inline const JacobianType& jacobian() const { return jacobian_; }
-- 
2.43.0


From f954624c033ed768cafc587f4948450708e2e3de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 35/65] fix: Jacobian of a point in a joint overwrote its cross
 matrix

---
 include/hpp/constraints/symbolic-calculus.hh | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index e8743a2..ba3cb0b 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -641,19 +641,13 @@ class PointInJoint : public CalculusBase<PointInJoint> {
     const matrix3_t& R = joint_->currentTransformation().rotation();
     this->jacobian_.noalias() = R * J.topRows<3>();
     if (!center_) {
-      computeCrossRXl();
-      this->jacobian_.noalias() -= (this->cross_ * R) * J.bottomRows<3>();
+      // cross_ is the cross matrix of the value of the expression, that
+      // contains the translation of the joint.
+      CrossMatrix RXl;
+      computeCrossMatrix(R * local_, RXl);
+      this->jacobian_.noalias() -= (RXl * R) * J.bottomRows<3>();
     }
   }
-  void computeCrossRXl() {
-    if (joint_ == NULL) return;
-    if (center_) {
-      this->cross_.setZero();
-      return;
-    }
-    computeCrossMatrix(joint_->currentTransformation().rotation() * local_,
-                       this->cross_);
-  }
 
  protected:
   JointPtr_t joint_;
-- 
2.43.0


From 1faa7ef6540823c3208f774f905c3abc2d588d84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 36/65] fix: Jacobian of an expression multiplied by the
 rotation of a joint

---
 include/hpp/constraints/symbolic-calculus.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index ba3cb0b..6eafae2 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -567,8 +567,8 @@ class RotationMultiply : public CalculusBase<RotationMultiply<RhsValue> > {
           R.transpose() *
           ((e_->rhs_->cross() * R) * J.bottomRows<3>() + e_->rhs_->jacobian());
     else
-      this->jacobian_ = R * ((e_->rhs_->cross() * R) * J.bottomRows<3>() +
-                             e_->rhs_->jacobian());
+      this->jacobian_ =
+          R * (e_->rhs_->jacobian() - e_->rhs_->cross() * J.bottomRows<3>());
   }
   void invalidate() {
     Parent_t::invalidate();
-- 
2.43.0


From 9f31feb8149fbf9a59d044d9f3490f77b344bad6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 37/65] fix: centers of mass in expressions overwrote one
 another

---
 include/hpp/constraints/symbolic-calculus.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 6eafae2..24e3578 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -801,20 +801,18 @@ class PointCom : public CalculusBase<PointCom, vector3_t, ComJacobian_t> {
 
   PointCom(const CenterOfMassComputationPtr_t& comc) : comc_(comc) {}
 
-  inline const vector3_t& value() const { return comc_->com(); }
-  inline const ComJacobian_t& jacobian() const { return comc_->jacobian(); }
-
   const CenterOfMassComputationPtr_t& centerOfMassComputation() const {
     return comc_;
   }
   void impl_value(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COM);
+    // Another computation of center of mass on the same device overwrites the
+    // result: keep a copy.
+    this->value_ = comc_->com();
   }
   void impl_jacobian(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COMPUTE_ALL);
-    // TODO: there is memory and time to be saved here as this copy is
-    // not important.
-    // this->jacobian_ = comc_->jacobian ();
+    this->jacobian_ = comc_->jacobian();
   }
 
  protected:
-- 
2.43.0


From 27f4ed527ea1f130ab7e63b94a2e6c743b56c89a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 38/65] fix: output of symbolic functions ignored their mask

---
 include/hpp/constraints/symbolic-function.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/symbolic-function.hh b/include/hpp/constraints/symbolic-function.hh
index e0ea622..ff06e6f 100644
--- a/include/hpp/constraints/symbolic-function.hh
+++ b/include/hpp/constraints/symbolic-function.hh
@@ -29,6 +29,7 @@
 #ifndef HPP_CONSTRAINTS_SYMBOLIC_FUNCTION_HH
 #define HPP_CONSTRAINTS_SYMBOLIC_FUNCTION_HH
 
+#include <algorithm>
 #include <hpp/constraints/config.hh>
 #include <hpp/constraints/differentiable-function.hh>
 #include <hpp/constraints/fwd.hh>
@@ -85,7 +86,9 @@ class HPP_CONSTRAINTS_DLLAPI SymbolicFunction : public DifferentiableFunction {
                    const typename Traits<Expression>::Ptr_t expr,
                    std::vector<bool> mask)
       : DifferentiableFunction(robot->configSize(), robot->numberDof(),
-                               LiegroupSpace::Rn(expr->value().size()), name),
+                               LiegroupSpace::Rn(std::count(
+                                   mask.begin(), mask.end(), true)),
+                               name),
         robot_(robot),
         expr_(expr),
         mask_(mask) {
-- 
2.43.0


From 239f9fec544e2f5648ef99d720b65ee0501a87c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 39/65] fix: logarithm of half turns about oblique axes

---
 include/hpp/constraints/tools.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/tools.hh b/include/hpp/constraints/tools.hh
index 45d472b..2434c30 100644
--- a/include/hpp/constraints/tools.hh
+++ b/include/hpp/constraints/tools.hh
@@ -86,9 +86,18 @@ inline void logSO3(const matrix3_t& R, value_type& theta,
     const value_type tmp0 = (R(0, 0) + cphi) * beta;
     const value_type tmp1 = (R(1, 1) + cphi) * beta;
     const value_type tmp2 = (R(2, 2) + cphi) * beta;
-    value(0) = (R(2, 1) > R(1, 2) ? 1 : -1) * (tmp0 > 0 ? sqrt(tmp0) : 0);
-    value(1) = (R(0, 2) > R(2, 0) ? 1 : -1) * (tmp1 > 0 ? sqrt(tmp1) : 0);
-    value(2) = (R(1, 0) > R(0, 1) ? 1 : -1) * (tmp2 > 0 ? sqrt(tmp2) : 0);
+    value(0) = (tmp0 > 0 ? sqrt(tmp0) : 0);
+    value(1) = (tmp1 > 0 ? sqrt(tmp1) : 0);
+    value(2) = (tmp2 > 0 ? sqrt(tmp2) : 0);
+    // The antisymmetric part vanishes at half a turn: use it only for the sign
+    // of the biggest coordinate, and the symmetric part for the signs of the
+    // others with respect to this one.
+    const int k = (tmp0 >= tmp1 && tmp0 >= tmp2) ? 0 : (tmp1 >= tmp2 ? 1 : 2);
+    const int k1 = (k + 1) % 3, k2 = (k + 2) % 3;
+    const value_type sk = (R(k2, k1) > R(k1, k2) ? 1 : -1);
+    value(k) *= sk;
+    value(k1) *= (R(k, k1) + R(k1, k) < 0 ? -sk : sk);
+    value(k2) *= (R(k, k2) + R(k2, k) < 0 ? -sk : sk);
   }
 }
 
-- 
2.43.0


From 5dcb77051b525fb74878018163770a8a03376a0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 40/65] fix: distance to a point of the environment ignored
 this point

---
 src/distance-between-points-in-bodies.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 0d70832..c02ca96 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -112,7 +112,7 @@ void DistanceBetweenPointsInBodies::impl_compute(
     global2_ = joint2_->currentTransformation().act(point2_);
     result.vector()[0] = (global2_ - global1_).norm();
   } else {
-    result.vector()[0] = (global1_).norm();
+    result.vector()[0] = (global2_ - global1_).norm();
   }
 
   latestArgument_ = argument;
-- 
2.43.0


From 9aec33775e0a26602b1c3005f102291edfe604f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 41/65] fix: Jacobian of the distance between points of robots
 with extra variables

---
 src/distance-between-points-in-bodies.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index c02ca96..495ed74 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -155,10 +155,11 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows(3) +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows(3));
-    jacobian = (tmp1 - tmp2) / dist.vector()[0];
+    jacobian.leftCols(J1.cols()) = (tmp1 - tmp2) / dist.vector()[0];
   } else {
-    jacobian = tmp1 / dist.vector()[0];
+    jacobian.leftCols(J1.cols()) = tmp1 / dist.vector()[0];
   }
+  jacobian.rightCols(jacobian.cols() - J1.cols()).setZero();
 }
 
 }  // namespace constraints
-- 
2.43.0


From 9d7ea8bf8c0c8d454cae35684f0d04148470f0f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 42/65] fix: Jacobian of the distance between points used the
 current pose of the robot

---
 src/distance-between-points-in-bodies.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 495ed74..ff9e7b2 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -123,6 +123,10 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
                                                   ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The robot may have been moved since the distance was computed.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
-- 
2.43.0


From 4980d1f5b81c74e8be6282563c2c74aa9f9290f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 43/65] fix: Jacobian of the distance between bodies used the
 current pose of the robot

---
 src/distance-between-bodies.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index a22ac78..d159d74 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -131,6 +131,10 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
                                           ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The robot may have been moved since the distance was computed.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
-- 
2.43.0


From ca2f62c892c2c427b3a282d7146bd3e9e1960071 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 44/65] fix: Jacobian of the distance between bodies of robots
 with extra variables

---
 src/distance-between-bodies.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index d159d74..971db40 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -147,10 +147,12 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   //        T (                              )
   // (P1-P2)  ( J    -   [P1 - t1]  J        )
   //          (  1 [0:3]          x  1 [3:6] )
-  jacobian = (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
-              P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
-                  J1.bottomRows<3>()) /
-             dist.vector()[0];
+  jacobian.leftCols(J1.cols()) =
+      (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
+       P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
+           J1.bottomRows<3>()) /
+      dist.vector()[0];
+  jacobian.rightCols(jacobian.cols() - J1.cols()).setZero();
   if (joint2_) {
     const JointJacobian_t& J2(joint2_->jacobian());
     const Transform3s& M2(joint2_->currentTransformation());
@@ -163,7 +165,7 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows<3>() +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows<3>());
-    jacobian.noalias() -= tmp2 / dist.vector()[0];
+    jacobian.leftCols(J1.cols()).noalias() -= tmp2 / dist.vector()[0];
   }
 }
 }  // namespace constraints
-- 
2.43.0


From 84df782635b5689d512f6898fefeffd69948930c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 45/65] fix: Jacobian of ComBetweenFeet left the columns of
 extra variables unset

---
 src/com-between-feet.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/com-between-feet.cc b/src/com-between-feet.cc
index cde152c..2b2ce08 100644
--- a/src/com-between-feet.cc
+++ b/src/com-between-feet.cc
@@ -131,6 +131,7 @@ void ComBetweenFeet::impl_jacobian(matrixOut_t jacobian,
   robot_->currentConfiguration(arg);
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
+  jacobian.rightCols(jacobian.cols() - jointRef_->jacobian().cols()).setZero();
   size_t index = 0;
   if (mask_[0]) {
     com_->invalidate();
-- 
2.43.0


From 995f5a952566fb97a6045184543d5ef10f7a4d5a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 46/65] fix: static stability of robots with extra variables

---
 src/static-stability.cc | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/static-stability.cc b/src/static-stability.cc
index 6f5b5ec..b5d5441 100644
--- a/src/static-stability.cc
+++ b/src/static-stability.cc
@@ -29,6 +29,7 @@
 #include "hpp/constraints/static-stability.hh"
 
 #include <hpp/pinocchio/device.hh>
+#include <hpp/pinocchio/extra-config-space.hh>
 #include <hpp/pinocchio/joint.hh>
 #include <hpp/pinocchio/liegroup-element.hh>
 #include <limits>
@@ -40,6 +41,13 @@ namespace constraints {
 
 using hpp::pinocchio::LiegroupElement;
 
+namespace {
+// Number of velocity variables of the joints of a robot.
+size_type jointDof(const DevicePtr_t& robot) {
+  return robot->numberDof() - robot->extraConfigSpace().dimension();
+}
+}  // namespace
+
 const value_type StaticStability::G = 9.81;
 const Eigen::Matrix<value_type, 6, 1> StaticStability::Gravity =
     (Eigen::Matrix<value_type, 6, 1>() << 0, 0, -1, 0, 0, 0).finished();
@@ -56,21 +64,21 @@ StaticStability::StaticStability(const std::string& name,
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6,
                                                               contacts.size()),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, contacts.size() * robot->numberDof())),
+               6, contacts.size() * jointDof(robot))),
       u_(contacts.size()),
       uMinus_(contacts.size()),
       v_(contacts.size()),
-      uDot_(contacts.size(), robot->numberDof()),
-      uMinusDot_(contacts.size(), robot->numberDof()),
-      vDot_(contacts.size(), robot->numberDof()),
-      lambdaDot_(robot->numberDof()) {
+      uDot_(contacts.size(), jointDof(robot)),
+      uMinusDot_(contacts.size(), jointDof(robot)),
+      vDot_(contacts.size(), jointDof(robot)),
+      lambdaDot_(jointDof(robot)) {
   phi_.setSize(2, contacts.size());
   Traits<PointCom>::Ptr_t OG = PointCom::create(com);
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<PointInJoint>::Ptr_t OP2 = PointInJoint::create(
-        contacts[i].joint, contacts[i].point, robot->numberDof());
+        contacts[i].joint, contacts[i].point, jointDof(robot));
     Traits<VectorInJoint>::Ptr_t n2 = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, jointDof(robot));
 
     phi_(0, i) = n2;
     phi_(1, i) = (OG - OP2) ^ n2;
@@ -118,6 +126,7 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
   robot_->currentConfiguration(argument);
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
+  jacobian.rightCols(jacobian.cols() - jointDof(robot_)).setZero();
 
   phi_.invalidate();
 
@@ -130,7 +139,7 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
   phi_.computePseudoInverseJacobian(argument, G);
   uDot_.noalias() = phi_.pinvJacobian();
 
-  jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() = uDot_;
+  jacobian.block(0, 0, contacts_.size(), jointDof(robot_)).noalias() = uDot_;
 
   if (computeUminusAndV(u_, uMinus_, v_)) {
     matrix_t S = -matrix_t::Identity(u_.size(), u_.size());
@@ -146,18 +155,18 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
 
     // computeLambdaDot (u_, v_, iMin, uDot_, vDot_, lambdaDot_);
 
-    // jacobian.block (0, 0, contacts_.size(), robot_->numberDof()).noalias ()
+    // jacobian.block (0, 0, contacts_.size(), jointDof(robot_)).noalias ()
     // += lambda * vDot_ + v_ * lambdaDot_.transpose ();
 
-    jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() +=
+    jacobian.block(0, 0, contacts_.size(), jointDof(robot_)).noalias() +=
         lambda * vDot_;
   }
 
   phi_.jacobianTimes(
       argument, u_,
-      jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()));
+      jacobian.block(contacts_.size(), 0, 6, jointDof(robot_)));
   phi_.computePseudoInverseJacobian(argument, Gravity);
-  jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()) +=
+  jacobian.block(contacts_.size(), 0, 6, jointDof(robot_)) +=
       -phi_.value() * phi_.pinvJacobian();
 }
 
@@ -205,7 +214,7 @@ void StaticStability::computeVDot(const ConfigurationIn_t arg,
 
   // TODO: preallocate this matrix
   Eigen::Matrix<value_type, 6, Eigen::Dynamic> JphiTimesUMinus(
-      6, robot_->numberDof());
+      6, jointDof(robot_));
   phi_.jacobianTimes(arg, uMinus, JphiTimesUMinus);
   vDot.noalias() -= phi_.pinv() * JphiTimesUMinus;
 
-- 
2.43.0


From 0f9531a0fa973428ba55f788c2ae5eb4daab8d8a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 47/65] fix: Jacobian of a weighted configuration distance on
 rotations

---
 src/configuration-constraint.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/configuration-constraint.cc b/src/configuration-constraint.cc
index e77c64f..2b25a4e 100644
--- a/src/configuration-constraint.cc
+++ b/src/configuration-constraint.cc
@@ -117,14 +117,12 @@ void ConfigurationConstraint::impl_jacobian(matrixOut_t jacobian,
   using namespace hpp::pinocchio;
 
   LiegroupElementConstRef a(argument, goal_.space());
-  jacobian.leftCols(robot_->numberDof()).noalias() = (goal_ - a).transpose();
+  jacobian.leftCols(robot_->numberDof()).noalias() =
+      weights_.cwiseProduct(goal_ - a).transpose();
 
   // Apply jacobian of the difference on the right.
   goal_.space()->dDifference_dq0<pinocchio::InputTimesDerivative>(
       argument, goal_.vector(), jacobian.leftCols(robot_->numberDof()));
-
-  jacobian.leftCols(robot_->numberDof()).array() *=
-      weights_.array().transpose();
 }
 }  // namespace constraints
 }  // namespace hpp
-- 
2.43.0


From 335f518adb57c1428c333aa0bdad37066b55a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 48/65] fix: Jacobian of the distance between bodies mixed up
 the bodies

---
 src/distance-between-bodies.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index 971db40..03923ae 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -140,6 +140,12 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   const matrix3_t& R1(M1.rotation());
   vector3_t point1(data_.distanceResults[minIndex_].nearest_points[0]);
   vector3_t point2(data_.distanceResults[minIndex_].nearest_points[1]);
+  // The object of joint 1 may come second in the pair.
+  const ::pinocchio::CollisionPair& pair(
+      robot_->geomModel().collisionPairs[minIndex_]);
+  if (robot_->geomModel().geometryObjects[pair.first].parentJoint !=
+      joint1_->index())
+    point1.swap(point2);
   // P1 - P2
   vector3_t P1_minus_P2(point1 - point2);
   // P1 - t1
-- 
2.43.0


From 51509a1065fa1087513536521feb5f5e43a6a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 49/65] fix: closest point of a segment was computed on the
 wrong side

---
 include/hpp/constraints/convex-shape.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index f74bd65..18a25ef 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -50,7 +50,7 @@ namespace constraints {
 /// closest point
 inline void closestPointToSegment(const vector3_t& P, const vector3_t& A,
                                   const vector3_t& v, vector3_t& B) {
-  vector3_t w = A - P;
+  vector3_t w = P - A;
   value_type c1, c2;
   c1 = v.dot(w);
   c2 = v.dot(v);
-- 
2.43.0


From b70fe769c1857c4c53c3fb2143ad99f68bb7be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 50/65] fix: aligned position of a convex shape was not a rigid
 motion

---
 include/hpp/constraints/convex-shape.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 18a25ef..c9dae74 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -363,7 +363,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConvexShapeData {
                                             vector3_t yaxis) const {
     assert(cs.shapeDimension_ > 2);
     // Project vector onto the plane
-    yaxis = oMj_.actInv(yaxis);
+    yaxis = oMj_.rotation().transpose() * yaxis;
     vector3_t yproj = yaxis - yaxis.dot(cs.N_) * cs.N_;
     if (yproj.isZero())
       return cs.MinJoint_;
@@ -371,8 +371,9 @@ struct HPP_CONSTRAINTS_DLLAPI ConvexShapeData {
       Transform3s M;
       M.translation() = cs.C_;
       M.rotation().col(0) = cs.N_;
-      M.rotation().col(1) = yaxis;
-      M.rotation().col(2) = cs.N_.cross(yaxis);
+      yproj.normalize();
+      M.rotation().col(1) = yproj;
+      M.rotation().col(2) = cs.N_.cross(yproj);
       return M;
     }
   }
-- 
2.43.0


From feb594554d44ac02290ed71c6a6d17c92e38c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 51/65] fix: reversing a segment kept its previous direction

---
 include/hpp/constraints/convex-shape.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index c9dae74..3fdbc1f 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -231,6 +231,8 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
 
   void init() {
     shapeDimension_ = Pts_.size();
+    Us_.clear();
+    Ns_.clear();
 
     switch (shapeDimension_) {
       case 0:
-- 
2.43.0


From c11ab9d9f90f745d94b1b2d1b740e96b62fcab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 52/65] fix: contact points of objects at any height above a
 floor

---
 src/convex-shape-contact.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index 7d31bab..681ab48 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -152,7 +152,8 @@ ConvexShapeContact::computeContactPoints(ConfigurationIn_t q,
          f_it != floorConvexShapes_.end(); ++f_it) {
       fd.updateToCurrentTransform(*f_it, device.d());
       if (fd.isInside(*f_it, od.center_, fd.normal_)) {
-        value_type dn = fd.normal_.dot(od.center_ - fd.center_);
+        // The normals of floors point inside them.
+        value_type dn = fd.normal_.dot(fd.center_ - od.center_);
         if (dn < normalMargin) {
           // TODO: compute which points of the object are inside the floor
           // shape.
-- 
2.43.0


From 0bf7be5b25b7b5bfa4a26cb7ecc00999225380ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 53/65] fix: contacts with their complement were equal to
 themselves only

---
 src/convex-shape-contact.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index 681ab48..b22f14d 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -512,8 +512,8 @@ bool ConvexShapeContactHold::isEqual(
   const ConvexShapeContactHold& castother =
       dynamic_cast<const ConvexShapeContactHold&>(other);
   if (!DifferentiableFunction::isEqual(other)) return false;
-  if (constraint_ != castother.constraint_) return false;
-  if (complement_ != castother.complement_) return false;
+  if (*constraint_ != *(castother.constraint_)) return false;
+  if (*complement_ != *(castother.complement_)) return false;
   return true;
 }
 
-- 
2.43.0


From 4ac2f7e1f8aed9d69fac5a23b2d3db593aa21b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 54/65] fix: contacts with different margins were equal

---
 src/convex-shape-contact.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index b22f14d..55d23d5 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -72,6 +72,7 @@ bool ConvexShapeContact::isEqual(const DifferentiableFunction& other) const {
       dynamic_cast<const ConvexShapeContact&>(other);
   if (!DifferentiableFunction::isEqual(other)) return false;
   if (robot_ != castother.robot_) return false;
+  if (normalMargin_ != castother.normalMargin_) return false;
   if (objectConvexShapes_.size() != castother.objectConvexShapes_.size())
     return false;
   if (floorConvexShapes_.size() != castother.floorConvexShapes_.size())
-- 
2.43.0


From b79560bc31f3bdcf4545eb5b3c871301f4281c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 55/65] fix: functions of the same joints designated by
 different pointers were different

---
 include/hpp/constraints/com-between-feet.hh            | 10 +++++++---
 include/hpp/constraints/convex-shape.hh                |  2 +-
 include/hpp/constraints/distance-between-bodies.hh     |  5 +++--
 .../constraints/distance-between-points-in-bodies.hh   |  5 +++--
 .../constraints/explicit/relative-transformation.hh    |  7 ++++---
 include/hpp/constraints/relative-com.hh                |  3 ++-
 include/hpp/constraints/static-stability.hh            |  2 +-
 7 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/hpp/constraints/com-between-feet.hh b/include/hpp/constraints/com-between-feet.hh
index e336d8e..aa0ce66 100644
--- a/include/hpp/constraints/com-between-feet.hh
+++ b/include/hpp/constraints/com-between-feet.hh
@@ -113,11 +113,15 @@ class HPP_CONSTRAINTS_DLLAPI ComBetweenFeet : public DifferentiableFunction {
     if (com_->centerOfMassComputation() !=
         castother.com_->centerOfMassComputation())
       return false;
-    if (left_->joint() != castother.left_->joint()) return false;
-    if (right_->joint() != castother.right_->joint()) return false;
+    if (Joint::index(left_->joint()) != Joint::index(castother.left_->joint()))
+      return false;
+    if (Joint::index(right_->joint()) !=
+        Joint::index(castother.right_->joint()))
+      return false;
     if (left_->local() != castother.left_->local()) return false;
     if (right_->local() != castother.right_->local()) return false;
-    if (jointRef_ != castother.jointRef_) return false;
+    if (Joint::index(jointRef_) != Joint::index(castother.jointRef_))
+      return false;
     if (pointRef_ != castother.pointRef_) return false;
     if (mask_ != castother.mask_) return false;
 
diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 3fdbc1f..9d7ffa5 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -172,7 +172,7 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
     if (Us_ != other.Us_) return false;
     if (Ls_ != other.Ls_) return false;
     if (MinJoint_ != other.MinJoint_) return false;
-    if (joint_ != other.joint_) return false;
+    if (Joint::index(joint_) != Joint::index(other.joint_)) return false;
     return true;
   }
   bool operator!=(ConvexShape const& other) const {
diff --git a/include/hpp/constraints/distance-between-bodies.hh b/include/hpp/constraints/distance-between-bodies.hh
index 8d63fe6..8f93e2e 100644
--- a/include/hpp/constraints/distance-between-bodies.hh
+++ b/include/hpp/constraints/distance-between-bodies.hh
@@ -34,6 +34,7 @@
 #include <hpp/constraints/differentiable-function.hh>
 #include <hpp/constraints/fwd.hh>
 #include <hpp/pinocchio/collision-object.hh>
+#include <hpp/pinocchio/joint.hh>
 #include <hpp/pinocchio/liegroup-element.hh>
 #include <pinocchio/multibody/geometry.hpp>
 
@@ -105,8 +106,8 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenBodies
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (joint1_ != castother.joint1_) return false;
-    if (joint2_ != castother.joint2_) return false;
+    if (Joint::index(joint1_) != Joint::index(castother.joint1_)) return false;
+    if (Joint::index(joint2_) != Joint::index(castother.joint2_)) return false;
     if (data_ != castother.data_) return false;
 
     return true;
diff --git a/include/hpp/constraints/distance-between-points-in-bodies.hh b/include/hpp/constraints/distance-between-points-in-bodies.hh
index fb7082e..4a9e26c 100644
--- a/include/hpp/constraints/distance-between-points-in-bodies.hh
+++ b/include/hpp/constraints/distance-between-points-in-bodies.hh
@@ -32,6 +32,7 @@
 #define HPP_CONSTRAINTS_DISTANCE_BETWEEN_POINTS_IN_BODIES_HH
 
 #include <hpp/constraints/differentiable-function.hh>
+#include <hpp/pinocchio/joint.hh>
 #include <hpp/pinocchio/liegroup-element.hh>
 
 namespace hpp {
@@ -114,8 +115,8 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenPointsInBodies
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (joint1_ != castother.joint1_) return false;
-    if (joint2_ != castother.joint2_) return false;
+    if (Joint::index(joint1_) != Joint::index(castother.joint1_)) return false;
+    if (Joint::index(joint2_) != Joint::index(castother.joint2_)) return false;
     if (point1_ != castother.point1_) return false;
     if (point2_ != castother.point2_) return false;
 
diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index cc7af61..ddf913b 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -143,9 +143,10 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (parentJoint_ != castother.parentJoint_) return false;
-    if (joint1_ != castother.joint1_) return false;
-    if (joint2_ != castother.joint2_) return false;
+    if (Joint::index(parentJoint_) != Joint::index(castother.parentJoint_))
+      return false;
+    if (Joint::index(joint1_) != Joint::index(castother.joint1_)) return false;
+    if (Joint::index(joint2_) != Joint::index(castother.joint2_)) return false;
     if (frame1_ != castother.frame1_) return false;
     if (frame2_ != castother.frame2_) return false;
     if (inConf_.rows() != castother.inConf_.rows()) return false;
diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index b8c8377..b6888a8 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -34,6 +34,7 @@
 #include <hpp/constraints/config.hh>
 #include <hpp/constraints/differentiable-function.hh>
 #include <hpp/constraints/fwd.hh>
+#include <hpp/pinocchio/joint.hh>
 
 namespace hpp {
 namespace constraints {
@@ -110,7 +111,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
 
     if (robot_ != castother.robot_) return false;
     if (comc_ != castother.comc_) return false;
-    if (joint_ != castother.joint_) return false;
+    if (Joint::index(joint_) != Joint::index(castother.joint_)) return false;
     if (reference_ != castother.reference_) return false;
     if (mask_ != castother.mask_) return false;
     if (nominalCase_ != castother.nominalCase_) return false;
diff --git a/include/hpp/constraints/static-stability.hh b/include/hpp/constraints/static-stability.hh
index 3093ff2..a141d0a 100644
--- a/include/hpp/constraints/static-stability.hh
+++ b/include/hpp/constraints/static-stability.hh
@@ -51,7 +51,7 @@ class HPP_CONSTRAINTS_DLLAPI StaticStability : public DifferentiableFunction {
     vector3_t point;
     vector3_t normal;
     bool operator==(Contact_t const& other) const {
-      if (joint != other.joint) return false;
+      if (Joint::index(joint) != Joint::index(other.joint)) return false;
       if (point != other.point) return false;
       if (normal != other.normal) return false;
       return true;
-- 
2.43.0


From db06949f5095cee9abf7302a4887d2d87d808766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 56/65] fix: distance between bodies was not equal to itself

---
 include/hpp/constraints/distance-between-bodies.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/distance-between-bodies.hh b/include/hpp/constraints/distance-between-bodies.hh
index 8f93e2e..924c529 100644
--- a/include/hpp/constraints/distance-between-bodies.hh
+++ b/include/hpp/constraints/distance-between-bodies.hh
@@ -108,7 +108,9 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenBodies
     if (robot_ != castother.robot_) return false;
     if (Joint::index(joint1_) != Joint::index(castother.joint1_)) return false;
     if (Joint::index(joint2_) != Joint::index(castother.joint2_)) return false;
-    if (data_ != castother.data_) return false;
+    // Not the results of the last evaluation.
+    if (data_.activeCollisionPairs != castother.data_.activeCollisionPairs)
+      return false;
 
     return true;
   }
-- 
2.43.0


From b1d05ef42f74c5fd9358c33d41aeeb83327bc5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 57/65] fix: locked extra degrees of freedom had no output
 variable

---
 src/locked-joint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 84ca65a..88f0e25 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -153,10 +153,10 @@ LockedJoint::LockedJoint(const DevicePtr_t& dev, const size_type index,
                    LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
                    0, dev->name() + "_extraDof" + numToStr(index)),
                segments_t(),  // input conf
-               segments_t(),  // input vel
                {segment_t(dev->configSize() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output conf
+               segments_t(),               // input vel
                {segment_t(dev->numberDof() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output vel
-- 
2.43.0


From 28dab561d7d88399fe9bc0257e53055dccce10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 58/65] fix: part of a joint locked had no output variable or
 the first ones of the joint

---
 src/locked-joint.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 88f0e25..78a880a 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -126,20 +126,19 @@ LockedJoint::LockedJoint(const JointPtr_t& joint, const size_type index,
                          vectorIn_t value)
     : Explicit(joint->robot()->configSpace(),
                ConstantFunction::create(
-                   LiegroupElement(
-                       value, LiegroupSpace::Rn(joint->configSize() - index)),
-                   0, 0, "partial " + joint->name()),
+                   LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
+                   0, "partial " + joint->name()),
                segments_t(),  // input conf
-               segments_t(),  // input vel
-               {segment_t(joint->rankInConfiguration(),
-                          joint->configSize() - index)},  // output conf
-               {segment_t(joint->rankInVelocity(),
-                          joint->numberDof() - index)},  // output vel
-               ComparisonTypes_t(joint->numberDof() - index, Equality),
-               std::vector<bool>(joint->numberDof(), true)),
+               {segment_t(joint->rankInConfiguration() + index,
+                          value.size())},  // output conf
+               segments_t(),               // input vel
+               {segment_t(joint->rankInVelocity() + index,
+                          value.size())},  // output vel
+               ComparisonTypes_t(value.size(), Equality),
+               std::vector<bool>(value.size(), true)),
       jointName_("partial_" + joint->name()),
       joint_(joint),
-      configSpace_(LiegroupSpace::Rn(joint->configSize() - index)) {
+      configSpace_(LiegroupSpace::Rn(value.size())) {
   assert(HPP_DYNAMIC_PTR_CAST(explicit_::ImplicitFunction, functionPtr()));
   assert(joint->numberDof() == joint->configSize());
   // rightHandSide (value);
-- 
2.43.0


From 6a1144e5df54d4452398597879f687238596c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 59/65] fix: Jacobian of the explicit relative pose of an
 object attached to a joint

---
 .../explicit/relative-transformation.hh       |  2 +-
 src/explicit/relative-transformation.cc       | 91 ++++++-------------
 2 files changed, 30 insertions(+), 63 deletions(-)

diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index ddf913b..a8bdc19 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -175,7 +175,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
 
   // Tmp variables
   mutable vector_t qsmall_, q_;
-  mutable matrix_t tmpJac_, J2_parent_minus_J1_;
+  mutable matrix_t tmpJac_;
 
   RelativeTransformation() {}
   HPP_SERIALIZABLE();
diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 3a493fe..c7b00b1 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -171,74 +171,41 @@ void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
   bool absolute = !joint1_;
   bool hasParent = (parentJoint_ && parentJoint_->index() > 0);
 
-  static const JointJacobian_t Jabs;
-  const JointJacobian_t& J1(absolute ? Jabs : joint1_->jacobian());
-  // const JointJacobian_t& J2_parent (parentJoint_->jacobian());
-
-  const matrix3_t& R1(absolute ? matrix3_t::Identity().eval()
-                               : joint1_->currentTransformation().rotation());
-  const matrix3_t& R2(joint2_->currentTransformation().rotation());
-  const matrix3_t& R2_inParentFrame(
-      joint2_->positionInParentFrame().rotation());
-
-  const vector3_t& t1(absolute
-                          ? vector3_t::Zero().eval()
-                          : joint1_->currentTransformation().translation());
-
-  matrix3_t cross1 = ::pinocchio::skew(
-                (R1 * F1inJ1_invF2inJ2_.translation()).eval()),
-            cross2;
-  if (hasParent) {
-    const vector3_t& t2_parent(
-        parentJoint_->currentTransformation().translation());
-    cross2 = ::pinocchio::skew((t2_parent - t1).eval());
-
-    if (absolute)
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian();
-    else
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian() - J1;
-  } else {
-    cross2 = -::pinocchio::skew(t1);
-    // J2_parent_minus_J1_ = - J1;
-  }
-
-  // Express velocity of J1 * M1/J1 * M2/J2^{-1} in J2_{parent}.
-  if (hasParent) {
-    const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation().rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian());
-
-    tmpJac_.noalias() =
-        (R2_inParentFrame.transpose() * R2_parent.transpose()) *
-        (cross1 * (omega(J2_parent_minus_J1_)) - cross2 * omega(J2_parent) -
-         trans(J2_parent_minus_J1_));
+  const matrix3_t R2(joint2_->currentTransformation().rotation());
+  const vector3_t t2(joint2_->currentTransformation().translation());
+
+  // The velocity of joint 2 with respect to its parent, expressed in the frame
+  // of joint 2, is the difference between the velocities of joint 1 and of the
+  // parent of joint 2 at the origin of this frame.
+  jacobian.setZero();
+  if (!absolute) {
+    const JointJacobian_t& J1(joint1_->jacobian());
+    const matrix3_t R1(joint1_->currentTransformation().rotation());
+    const vector3_t t1(joint1_->currentTransformation().translation());
+
+    const matrix3_t cross1(
+        ::pinocchio::skew((R1.transpose() * (t2 - t1)).eval()));
+    tmpJac_.noalias() = (R2.transpose() * R1) * trans(J1);
+    tmpJac_.noalias() -= (R2.transpose() * R1 * cross1) * omega(J1);
     jacobian.topRows<3>() = inVel_.rview(tmpJac_);
-  } else {
-    if (absolute)
-      jacobian.topRows<3>().setZero();
-    else {
-      tmpJac_.noalias() =
-          R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
-      jacobian.topRows<3>() = inVel_.rview(tmpJac_);
-    }
+    tmpJac_.noalias() = (R2.transpose() * R1) * omega(J1);
+    jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
   }
-
   if (hasParent) {
-    const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation().rotation());
     const JointJacobian_t& J2_parent(parentJoint_->jacobian());
+    const matrix3_t R2_parent(
+        parentJoint_->currentTransformation().rotation());
+    const vector3_t t2_parent(
+        parentJoint_->currentTransformation().translation());
 
-    // J = p2RT2 * 0RTp2 * [ p2
+    const matrix3_t cross2(
+        ::pinocchio::skew((R2_parent.transpose() * (t2 - t2_parent)).eval()));
+    tmpJac_.noalias() =
+        (R2.transpose() * R2_parent * cross2) * omega(J2_parent);
+    tmpJac_.noalias() -= (R2.transpose() * R2_parent) * trans(J2_parent);
+    jacobian.topRows<3>() += matrix_t(inVel_.rview(tmpJac_));
     tmpJac_.noalias() = (R2.transpose() * R2_parent) * omega(J2_parent);
-    if (!absolute) tmpJac_.noalias() -= (R2.transpose() * R1) * omega(J1);
-    jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
-  } else {
-    if (absolute)
-      jacobian.bottomRows<3>().setZero();
-    else {
-      tmpJac_.noalias() = (R2.transpose() * R1) * omega(J1);
-      jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
-    }
+    jacobian.bottomRows<3>() -= matrix_t(inVel_.rview(tmpJac_));
   }
 }
 
-- 
2.43.0


From eb7fd80721d54ec28b2cc34cd253ebec2995efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 60/65] fix: constraints given equal explicit functions were
 different

---
 include/hpp/constraints/explicit/implicit-function.hh | 4 +++-
 src/explicit.cc                                       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/explicit/implicit-function.hh b/include/hpp/constraints/explicit/implicit-function.hh
index 1b319fc..a165830 100644
--- a/include/hpp/constraints/explicit/implicit-function.hh
+++ b/include/hpp/constraints/explicit/implicit-function.hh
@@ -95,7 +95,9 @@ class ImplicitFunction : public DifferentiableFunction {
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (inputToOutput_ != castother.inputToOutput_) return false;
+    if (inputToOutput_ != castother.inputToOutput_ &&
+        *inputToOutput_ != *castother.inputToOutput_)
+      return false;
     if (inputConfIntervals_.rows() != castother.inputConfIntervals_.rows())
       return false;
     if (outputConfIntervals_.rows() != castother.outputConfIntervals_.rows())
diff --git a/src/explicit.cc b/src/explicit.cc
index 26b0b2c..9b17611 100644
--- a/src/explicit.cc
+++ b/src/explicit.cc
@@ -128,7 +128,9 @@ bool Explicit::isEqual(const Implicit& other, bool swapAndTest) const {
   if (swapAndTest && !Implicit::isEqual(other, swapAndTest)) return false;
   try {
     const Explicit& castother = dynamic_cast<const Explicit&>(other);
-    if (inputToOutput_ != castother.inputToOutput_) return false;
+    if (inputToOutput_ != castother.inputToOutput_ &&
+        *inputToOutput_ != *castother.inputToOutput_)
+      return false;
     if (inputConf_ != castother.inputConf_) return false;
     if (outputConf_ != castother.outputConf_) return false;
     if (inputVelocity_ != castother.inputVelocity_) return false;
-- 
2.43.0


From e5ba7b6d1bdad4cc459242474ed2d6266064c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 61/65] fix: Jacobian of an explicit contact with floors on
 several joints

---
 src/explicit/convex-shape-contact.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/explicit/convex-shape-contact.cc b/src/explicit/convex-shape-contact.cc
index 6c9b57d..9242e87 100644
--- a/src/explicit/convex-shape-contact.cc
+++ b/src/explicit/convex-shape-contact.cc
@@ -165,8 +165,14 @@ void ConvexShapeContact::jacobianOutputValue(vectorIn_t qin,
   assert(!qinRelPose.hasNaN());
   LiegroupElement outputRelPose(LiegroupSpace::R3xSO3());
   relativePose->outputValue(outputRelPose, qinRelPose, relativePoseRhs);
+  // The relative pose depends on part of the input variables only.
+  Eigen::ColBlockIndices relPoseVelocity(relativePose->inputVelocity());
+  matrix_t relPoseJacobian(jacobian.rows(), relPoseVelocity.nbCols());
   relativePose->jacobianOutputValue(qinRelPose, outputRelPose, relativePoseRhs,
-                                    jacobian);
+                                    relPoseJacobian);
+  matrix_t J(matrix_t::Zero(jacobian.rows(), f->inputDerivativeSize()));
+  relPoseVelocity.lview(J) = relPoseJacobian;
+  jacobian = Eigen::ColBlockIndices(inputVelocity()).rview(J).eval();
 }
 
 ConvexShapeContact::ConvexShapeContact(const std::string& name,
-- 
2.43.0


From 7b28006d031b5e0b0ae41d168d652e33a7e5c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 62/65] fix: explicit relative transformations restored the
 robot of other functions as a copy

---
 src/explicit/relative-transformation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index c7b00b1..bf88b92 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -32,6 +32,7 @@
 #include <hpp/constraints/explicit/relative-transformation.hh>
 #include <hpp/constraints/serialization.hh>
 #include <hpp/pinocchio/device.hh>
+#include <hpp/pinocchio/serialization.hh>
 #include <hpp/util/serialization.hh>
 #include <pinocchio/serialization/se3.hpp>
 #include <pinocchio/spatial/explog.hpp>
-- 
2.43.0


From 91e1da8e04156db4272a5414d0702c3dc44ac44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 63/65] fix: restored functions of GenericTransformation could
 not be evaluated: no row of the mask

---
 src/generic-transformation.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic-transformation.cc b/src/generic-transformation.cc
index 2bbdd13..f41b5a6 100644
--- a/src/generic-transformation.cc
+++ b/src/generic-transformation.cc
@@ -287,6 +287,10 @@ void GenericTransformation<_Options>::serialize(Archive& ar,
   ar& BOOST_SERIALIZATION_NVP(m_);
   ar& boost::serialization::make_nvp("mask_",
                                      const_cast<std::vector<bool>&>(mask_));
+  if (!Archive::is_saving::value)
+    Vindices_ = Eigen::RowBlockIndices(
+        indices<(bool)ComputePosition, (bool)ComputeOrientation,
+                (bool)OutputR3xSO3>(mask_));
   ar& BOOST_SERIALIZATION_NVP(self_);
 }
 
-- 
2.43.0


From e14532bc3c93321a4e891345145e05f3b8bab2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 64/65] fix: a step out of the domain of an explicit function
 lost the valid configuration

---
 include/hpp/constraints/solver/impl/by-substitution.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index bc12b2d..eace010 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -113,6 +113,12 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
       lineSearch(*this, arg, dq_);
       explicit_.solve(arg);
     } catch (const FunctionNotDefinedForThisValue& exc) {
+      // Do not lose the valid configurations visited before this step.
+      if (!optimize && errorWasBelowThr) {
+        arg = initArg;
+        return SUCCESS;
+      }
+      if (optimize && qopt.size() > 0) arg = qopt;
       return INFEASIBLE;
     }
     assert(!arg.hasNaN());
-- 
2.43.0


From d20aac9317b69b685f4b68a36491e63c7bc07c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 65/65] fix: printing a locked joint evaluated the wrong
 function on an empty configuration

---
 src/locked-joint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 78a880a..e720720 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -177,9 +177,9 @@ void LockedJoint::init(const LockedJointPtr_t& self) {
 }
 
 std::ostream& LockedJoint::print(std::ostream& os) const {
-  LiegroupElement v;
+  LiegroupElement v(explicitFunction()->outputSpace());
   vector_t empty;
-  function().value(v, empty);
+  explicitFunction()->value(v, empty);
   os << "Locked joint " << jointName_
      << ", value = " << pinocchio::displayConfig(v.vector())
      << ": rank in configuration = " << rankInConfiguration()
-- 
2.43.0

