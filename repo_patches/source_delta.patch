From 3b3e06be900f02979ddfba66de7f1de472f487ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 01/27] fix: Graph::removeEdge rejects the id one past the last
 edge

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c6e1319..b148888 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -99,7 +99,7 @@ typename Graph<P, T>::Id Graph<P, T>::addEdge(E&& edg)
 template <typename P, typename T>
 bool Graph<P, T>::removeEdge(Id edge_id)
 {
-  if (edge_id > edges_.size())
+  if (edge_id >= edges_.size())
     return false;
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
-- 
2.43.0


From 9e4672aa1ea58c710f09905ee6944aa07ea0c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 02/27] fix: Graph::removeEdge unlinks the edge from its end
 nodes

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index b148888..676257b 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -2,9 +2,11 @@
 #define NDT_GSLAM_POSE_GRAPH
 
 #include <Eigen/Eigen>
+#include <algorithm>
 #include <iostream>
 #include <map>
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 namespace slamuk
@@ -104,6 +106,11 @@ bool Graph<P, T>::removeEdge(Id edge_id)
   if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
       id_edge_pool_.end())
     return false;
+  E* edge = edges_[edge_id].get();
+  auto& out = nodes_[edge->getFrom()->getId()]->getEdgesOut();
+  out.erase(std::remove(out.begin(), out.end(), edge), out.end());
+  auto& in = nodes_[edge->getTo()->getId()]->getEdgesIn();
+  in.erase(std::remove(in.begin(), in.end(), edge), in.end());
   id_edge_pool_.push_back(edge_id);
   edges_[edge_id].reset(nullptr);
   return true;
-- 
2.43.0


From 44a26a61b7a3e49626c85300b1cf0cbd48265679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:14 +0000
Subject: [PATCH 03/27] fix: graph iterators do not read past the last element

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 676257b..c16430b 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -272,7 +272,7 @@ public:
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
@@ -330,7 +330,7 @@ public:
   {
     ++current_;
     // in case of empty field in list skip this field and go on
-    while (*current_ == nullptr && current_ != end_) {
+    while (current_ != end_ && *current_ == nullptr) {
       ++current_;
     }
     return *this;
-- 
2.43.0


From 6875764316f169d23d89647a356dc7d65bc7e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 04/27] fix: graph iteration starts at the first live element

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index c16430b..574963c 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -267,6 +267,10 @@ public:
   ListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // the first fields of the list may be empty too
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
@@ -325,6 +329,10 @@ public:
   ConstListIterator(const DataIter& begin, const DataIter& end)
     : current_(begin), end_(end)
   {
+    // the first fields of the list may be empty too
+    while (current_ != end_ && *current_ == nullptr) {
+      ++current_;
+    }
   }
   self_type operator++()
   {
-- 
2.43.0


From 2f3d753d3e9fe34bac8192863f5831ffebff598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 05/27] fix: post-increment of graph iterators returns the
 previous position

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 574963c..7beeca1 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -283,12 +283,13 @@ public:
   }
   self_type operator++(int)
   {
+    self_type previous = *this;
     ++current_;
     // in case of empty field in list skip this field and go on
     while (current_ != end_ && current_->get() == nullptr) {
       ++current_;
     }
-    return *this;
+    return previous;
   }
   reference operator*()
   {
@@ -345,12 +346,13 @@ public:
   }
   self_type operator++(int)
   {
+    self_type previous = *this;
     ++current_;
     // in case of empty field in list skip this field and go on
     while (current_ != end_ && current_->get() == nullptr) {
       ++current_;
     }
-    return *this;
+    return previous;
   }
   reference operator*()
   {
-- 
2.43.0


From 7725ffb7fe18e4aaf14abeb7b8589da2f889cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 06/27] fix: mixture edges initialise the best component member

The default constructors assigned a local variable of the same name, so
getBestComponent() of a fresh edge returned an indeterminate value.
---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp   | 2 +-
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 7b65199..9ec47f6 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -40,7 +40,7 @@ using namespace std;
 EdgeSE2Mixture::EdgeSE2Mixture() : g2o::EdgeSE2::EdgeSE2()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2Mixture::~EdgeSE2Mixture()
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 36ce3f2..ae03517 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -41,7 +41,7 @@ EdgeSE2PointXYMixture::EdgeSE2PointXYMixture()
   : g2o::EdgeSE2PointXY::EdgeSE2PointXY()
 {
   numberComponents = 0;
-  int bestComponent = -1;
+  bestComponent = -1;
 }
 
 EdgeSE2PointXYMixture::~EdgeSE2PointXYMixture()
-- 
2.43.0


From 10c9d78b04430eb9df30fcffd13ccedfaea1a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 07/27] fix: mixture edges keep their belief when no component
 is likely

With no component, or with none of finite likelihood, computeError()
indexed the component list with -1.
---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp  | 3 ++-
 .../slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 9ec47f6..50c6eee 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -97,7 +97,8 @@ void EdgeSE2Mixture::computeError()
 
   bestComponent = best;
   cerr << "\nBest component is " << bestComponent << "\n";
-  UpdateBelief(bestComponent);
+  if (bestComponent >= 0)
+    UpdateBelief(bestComponent);
 
   // this will be used by the optimizer
   g2o::EdgeSE2::computeError();
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index ae03517..362e446 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -98,7 +98,8 @@ void EdgeSE2PointXYMixture::computeError()
 
   // if(best!=bestComponent){
   bestComponent = best;
-  UpdateBelief(bestComponent);
+  if (bestComponent >= 0)
+    UpdateBelief(bestComponent);
   //}
   g2o::EdgeSE2PointXY::computeError();
 }
-- 
2.43.0


From 8e88fb3ca4cd866a7d23a763f105bafea4bd3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:12 +0000
Subject: [PATCH 08/27] fix: mixture edges replace their components when set
 again

A second initializeComponents() kept using the determinants of the first
set, and read() appended to components the edge already had while
counting only the new ones.
---
 ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp | 4 ++++
 .../slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
index 50c6eee..54ff112 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_mixture.cpp
@@ -61,6 +61,7 @@ void EdgeSE2Mixture::initializeComponents(std::vector<g2o::EdgeSE2*>& _edges,
   this->weights = _weights;
 
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -139,6 +140,9 @@ bool EdgeSE2Mixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 362e446..0c3a788 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -62,6 +62,7 @@ void EdgeSE2PointXYMixture::initializeComponents(
   this->weights = _weights;
   // UpdateBelief(0);
   numberComponents = _edges.size();
+  determinants.clear();
   for (unsigned int i = 0; i < numberComponents; i++)
     determinants.push_back(allEdges[i]->information().inverse().determinant());
 
@@ -135,6 +136,9 @@ bool EdgeSE2PointXYMixture::read(std::istream& is)
 {
   is >> numberComponents;
 
+  allEdges.clear();
+  weights.clear();
+  determinants.clear();
   allEdges.reserve(numberComponents);
   weights.reserve(numberComponents);
   determinants.reserve(numberComponents);
-- 
2.43.0


From a02ac16fa39eb302d6cccd0701ffbce6fe469ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 09/27] fix: point mixture edge linearises its currently best
 component

linearizeOplus() recomputed the error of the previously selected component
instead of selecting the best one, unlike EdgeSE2Mixture.
---
 .../src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
index 0c3a788..547d6f3 100644
--- a/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
+++ b/ndt_gslam/src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
@@ -115,7 +115,7 @@ double EdgeSE2PointXYMixture::getNegLogProb(unsigned int c)
 
 void EdgeSE2PointXYMixture::linearizeOplus()
 {
-  EdgeSE2PointXY::computeError();
+  EdgeSE2PointXYMixture::computeError();
   g2o::EdgeSE2PointXY::linearizeOplus();
 }
 
-- 
2.43.0


From e15f3fb28ae10321cb993cc2fdf54adb5854a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 10/27] fix: switchable edges and vertices report failed reads
 and writes

read() and EdgeSwitchPrior::write() returned true whatever the state of
the stream was, so truncated records were accepted.
---
 .../switchable_constraints/edge_se2Switchable.cpp             | 2 +-
 .../switchable_constraints/edge_switchPrior.cpp               | 4 ++--
 .../switchable_constraints/vertex_switchLinear.cpp            | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
index b0ae7ad..2584e9d 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
@@ -41,7 +41,7 @@ bool EdgeSE2Switchable::read(std::istream& is)
       if (i != j)
         information()(j, i) = information()(i, j);
     }
-  return true;
+  return !is.fail();
 }
 // ================================================
 bool EdgeSE2Switchable::write(std::ostream& os) const
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
index 2d9ac54..408f39c 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
@@ -9,13 +9,13 @@ bool EdgeSwitchPrior::read(std::istream &is)
   setMeasurement(new_measurement);
 
   is >> information()(0, 0);
-  return true;
+  return !is.fail();
 }
 
 bool EdgeSwitchPrior::write(std::ostream &os) const
 {
   os << measurement() << " " << information()(0, 0);
-  return true;
+  return os.good();
 }
 
 void EdgeSwitchPrior::linearizeOplus()
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index 676c512..bbb25c3 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -18,7 +18,7 @@ bool VertexSwitchLinear::read(std::istream& is)
   is >> _x;
   _estimate = _x;
 
-  return true;
+  return !is.fail();
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
-- 
2.43.0


From 8d9fdfaf3f19c9fe84c6efca555bc424f4d03ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:49 +0000
Subject: [PATCH 11/27] fix: switch vertex value follows restored estimates

The value was kept a second time in _x, which g2o does not restore when it
pops a rejected step, so x() and the next increment used the rejected value.
---
 .../vertex_switchLinear.h                     |  4 +---
 .../vertex_switchLinear.cpp                   | 23 ++++++++-----------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
index c8b104d..872d329 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h
@@ -32,7 +32,7 @@ public:
 
   double x() const
   {
-    return _x;
+    return _estimate;
   };
 
   //! The gradient at the current estimate is always 1;
@@ -41,8 +41,6 @@ public:
     return 1;
   };
 
-private:
-  double _x;
 };
 
 #endif
diff --git a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
index bbb25c3..ffc6233 100644
--- a/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
+++ b/ndt_gslam/src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
@@ -15,38 +15,33 @@ using namespace std;
 
 bool VertexSwitchLinear::read(std::istream& is)
 {
-  is >> _x;
-  _estimate = _x;
+  is >> _estimate;
 
   return !is.fail();
 }
 
 bool VertexSwitchLinear::write(std::ostream& os) const
 {
-  os << _x;
+  os << _estimate;
   return os.good();
 }
 
 void VertexSwitchLinear::setToOriginImpl()
 {
-  _x = 0;
-  _estimate = _x;
+  _estimate = 0;
 }
 
 void VertexSwitchLinear::setEstimate(const double& et)
 {
-  _x = et;
-  _estimate = _x;
+  _estimate = et;
 }
 
 void VertexSwitchLinear::oplusImpl(const double* update)
 {
-  _x += update[0];
+  _estimate += update[0];
 
-  if (_x < 0)
-    _x = 0;
-  if (_x > 1)
-    _x = 1;
-
-  _estimate = _x;
+  if (_estimate < 0)
+    _estimate = 0;
+  if (_estimate > 1)
+    _estimate = 1;
 }
-- 
2.43.0


From 7c594995608659a8bf149531b0041ac1ed28cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 12/27] fix: do not mark a degenerate covariance as gaussian

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index f3294eb..80f4f6b 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -219,8 +219,9 @@ void NDTCell::rescaleCovar()
   Eigen::SelfAdjointEigenSolver<Matrix> solver(cov_);
   Matrix evacs = solver.eigenvectors();
   Matrix evals = solver.eigenvalues().asDiagonal();
+  bool valid = true;
   if (evals(0, 0) < 0 || evals(1, 1) < 0 || evals(2, 2) <= 0)
-    gaussian_ = false;
+    valid = false;
 
   double min_eval = 0.01 * evals(2, 2);
   if (evals(0, 0) < min_eval)
@@ -231,8 +232,8 @@ void NDTCell::rescaleCovar()
   icov_ = cov_.inverse();
   if (icov_.maxCoeff() == std::numeric_limits<float>::infinity() ||
       icov_.minCoeff() == -std::numeric_limits<float>::infinity())
-    gaussian_ = false;
-  gaussian_ = true;
+    valid = false;
+  gaussian_ = valid;
 }
 
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
-- 
2.43.0


From e93331d260f8ff42b23fafd0c8966f1430104915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 13/27] fix: give the most likely point of a degenerate ray a
 value

---
 ndt_gslam/src/ndt/ndt_cell.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndt_gslam/src/ndt/ndt_cell.cpp b/ndt_gslam/src/ndt/ndt_cell.cpp
index 80f4f6b..2d4d0bd 100644
--- a/ndt_gslam/src/ndt/ndt_cell.cpp
+++ b/ndt_gslam/src/ndt/ndt_cell.cpp
@@ -239,7 +239,11 @@ void NDTCell::rescaleCovar()
 double NDTCell::calcMaxLikelihoodOnLine(const Vector &start, const Vector &end,
                                         Vector &pt) const
 {
-  Vector l = (end - start) / (end - start).norm();
+  pt = end;
+  double length = (end - start).norm();
+  if (length == 0)
+    return 1.0;
+  Vector l = (end - start) / length;
   Vector a = icov_ * l;
   Vector b = (end - mean_);
   double sigma = a.cwiseProduct(l).sum();
-- 
2.43.0


From 3f70c82d51a0718828129ce02c4774870052717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 14/27] fix: keep the occupancy set from a percentage within
 [-1,1]

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index 28ec657..ad81e95 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -119,8 +119,8 @@ public:
   {
     if (occup_ >= MAX_OCCUPANCY)
       return 100;
-    if (occup_ < MIN_OCCUPANCY)
-      return 0;
+    if (occup_ < 0)
+      return -1;
     return static_cast<int8_t>(std::floor(occup_ * 100));
   }
   /**
@@ -139,7 +139,12 @@ public:
    */
   void setOccupancy(int8_t occup)
   {
-    occup_ = occup;
+    if (occup < 0)
+      occup_ = MIN_OCCUPANCY;
+    else if (occup >= 100)
+      occup_ = MAX_OCCUPANCY;
+    else
+      occup_ = occup / 100.0f;
   }
 
   /**
-- 
2.43.0


From 35d59f092104b9af18f0e0f810326bae3a7b1403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 15/27] fix: covarInverse compares the eigenvalues, not matrix
 elements

---
 ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
index 34f3223..5fd50a0 100644
--- a/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
+++ b/ndt_gslam/include/ndt_gslam/utils/covariance_inverse.h
@@ -31,7 +31,7 @@ bool covarInverse(const Eigen::Matrix<Scalar, 3, 3> &cov,
     double max_eval = evals.maxCoeff();
     // test if every eigenval is big enough
     for (int i = 0; i < evals.cols(); ++i) {
-      if (max_eval > evals(i) * eval_factor) {
+      if (max_eval > evals(i, i) * eval_factor) {
         evals(i, i) = max_eval / eval_factor;
         recalc = true;
       }
-- 
2.43.0


From 48489851a579caf47f36ed87ebb6797d38fc7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 16/27] fix: split terminates for an empty token

---
 ndt_gslam/include/ndt_gslam/utils/string_tools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/utils/string_tools.h b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
index bbf24e5..fc4f61e 100644
--- a/ndt_gslam/include/ndt_gslam/utils/string_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
@@ -24,6 +24,8 @@ std::vector<std::string> split(const std::string& data,
   std::vector<std::string> output;
   size_t pos = std::string::npos;
   std::string temp = data;
+  if (token.empty())
+    return {data};
   do {
     pos = temp.find(token);
     output.push_back(temp.substr(0, pos));
-- 
2.43.0


From 7da8d1ab34afe9e64e66a01cb8a49380302f662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 17/27] fix: functions defined in headers are inline

---
 ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h               | 2 +-
 ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h | 8 ++++----
 ndt_gslam/include/ndt_gslam/utils/msgs_conversions.h     | 4 ++--
 ndt_gslam/include/ndt_gslam/utils/string_tools.h         | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
index ad81e95..e25850a 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/ndt_cell.h
@@ -219,7 +219,7 @@ private:
                                  Vector &pt) const;
 };
 
-std::ostream &operator<<(std::ostream &os, const NDTCell &cell)
+inline std::ostream &operator<<(std::ostream &os, const NDTCell &cell)
 {
   os << std::floor(cell.occup_);
   return os;
diff --git a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
index 8179fe0..7c855c4 100644
--- a/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
+++ b/ndt_gslam/include/ndt_gslam/registration/ndt_reg_tools.h
@@ -103,7 +103,7 @@ struct JacobianHessianDerivatives {
   }
 };
 
-bool updateIntervalMT(double &a_l, double &f_l, double &g_l, double &a_u,
+inline bool updateIntervalMT(double &a_l, double &f_l, double &g_l, double &a_u,
                       double &f_u, double &g_u, double a_t, double f_t,
                       double g_t)
 {
@@ -143,7 +143,7 @@ bool updateIntervalMT(double &a_l, double &f_l, double &g_l, double &a_u,
     return (true);
 }
 
-double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
+inline double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
                              double f_u, double g_u, double a_t, double f_t,
                              double g_t)
 {
@@ -242,7 +242,7 @@ double trialValueSelectionMT(double a_l, double f_l, double g_l, double a_u,
  * Thuente 1994]
   * \return sufficent decrease value
   */
-double auxilaryFunction_PsiMT(double a, double f_a, double f_0, double g_0,
+inline double auxilaryFunction_PsiMT(double a, double f_a, double f_0, double g_0,
                               double mu = 1.e-4)
 {
   return (f_a - f_0 - mu * g_0 * a);
@@ -260,7 +260,7 @@ double auxilaryFunction_PsiMT(double a, double f_a, double f_0, double g_0,
  * Thuente 1994]
   * \return sufficent decrease derivative
   */
-double auxilaryFunction_dPsiMT(double g_a, double g_0, double mu = 1.e-4)
+inline double auxilaryFunction_dPsiMT(double g_a, double g_0, double mu = 1.e-4)
 {
   return (g_a - mu * g_0);
 }
diff --git a/ndt_gslam/include/ndt_gslam/utils/msgs_conversions.h b/ndt_gslam/include/ndt_gslam/utils/msgs_conversions.h
index 1ea4c4f..bf8ab22 100644
--- a/ndt_gslam/include/ndt_gslam/utils/msgs_conversions.h
+++ b/ndt_gslam/include/ndt_gslam/utils/msgs_conversions.h
@@ -5,9 +5,9 @@
 #include <Eigen/Dense>
 namespace slamuk
 {
-geometry_msgs::Pose EigenToPoseMsg(const Eigen::Vector3d &pose);
+inline geometry_msgs::Pose EigenToPoseMsg(const Eigen::Vector3d &pose);
 
-geometry_msgs::Pose EigenToPoseMsg(const Eigen::Vector3d &pose)
+inline geometry_msgs::Pose EigenToPoseMsg(const Eigen::Vector3d &pose)
 {
   geometry_msgs::Pose msg;
   msg.position.x = pose(0);
diff --git a/ndt_gslam/include/ndt_gslam/utils/string_tools.h b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
index fc4f61e..ff8a763 100644
--- a/ndt_gslam/include/ndt_gslam/utils/string_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/string_tools.h
@@ -14,11 +14,11 @@ namespace slamuk
  *
  * @return     parts of the data between tokens
  */
-std::vector<std::string> split(const std::string& data,
+inline std::vector<std::string> split(const std::string& data,
                                const std::string& token);
 
 // IMPLEMENTATION
-std::vector<std::string> split(const std::string& data,
+inline std::vector<std::string> split(const std::string& data,
                                const std::string& token)
 {
   std::vector<std::string> output;
-- 
2.43.0


From fc41d859e6d1b292f1651376c96acdbf47b8e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 18/27] fix: grid bounds are half open like the cells

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 05de2c7..03af4d6 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -393,8 +393,8 @@ bool VoxelGrid2D<CellType>::isInside(const Point& pt) const
 {
   if (pt(0) >=
           -static_cast<double>(width_left_) * cell_size_ - cell_size_half_ &&
-      pt(0) <= width_right_ * cell_size_ + cell_size_half_ &&
-      pt(1) >=
+      pt(0) < width_right_ * cell_size_ + cell_size_half_ &&
+      pt(1) >
           -static_cast<double>(height_down_) * cell_size_ - cell_size_half_ &&
       pt(1) <= height_up_ * cell_size_ + cell_size_half_)
     return true;
@@ -678,8 +678,8 @@ template <typename CellType>
 size_t VoxelGrid2D<CellType>::calcIncRight(float pt) const
 {
   float maxx = width_right_ * cell_size_ + cell_size_half_;
-  if (pt > maxx)
-    return static_cast<size_t>(std::ceil((pt - maxx) / cell_size_));
+  if (pt >= maxx)
+    return static_cast<size_t>(std::floor((pt - maxx) / cell_size_)) + 1;
   return 0;
 }
 
@@ -696,8 +696,8 @@ template <typename CellType>
 size_t VoxelGrid2D<CellType>::calcIncDown(float pt) const
 {
   float miny = -static_cast<float>(height_down_) * cell_size_ - cell_size_half_;
-  if (pt < miny)
-    return static_cast<size_t>(std::ceil((miny - pt) / cell_size_));
+  if (pt <= miny)
+    return static_cast<size_t>(std::floor((miny - pt) / cell_size_)) + 1;
   return 0;
 }
 
-- 
2.43.0


From f944d47ab72f4f724cc791d842626dd434788526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 19/27] fix: removeCell returns a value on every path

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 03af4d6..7b6245e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -382,10 +382,11 @@ bool VoxelGrid2D<CellType>::removeCell(const Point& posistion)
   if (!isInside(posistion))
     return false;
   size_t idx = calcIndex(posistion);
-  if (cells_[idx].get() != nullptr) {
-    --valid_cells_;
-  }
+  if (cells_[idx].get() == nullptr)
+    return false;
+  --valid_cells_;
   cells_[idx].reset(nullptr);
+  return true;
 }
 
 template <typename CellType>
-- 
2.43.0


From 5930beb0a031af78b34ab570507135b35919faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 20/27] fix: getCentroid uses the grid extents

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 7b6245e..e8ec958 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -470,9 +470,9 @@ VoxelGrid2D<CellType>::getCentroid(const Point& pt) const
 {
   std::pair<size_t, size_t> coords = calcCoordinates(pt);
   double x =
-      (static_cast<long>(coords.first) - static_cast<long>(left)) * cell_size_;
+      (static_cast<long>(coords.first) - static_cast<long>(width_left_)) * cell_size_;
   double y =
-      -(static_cast<long>(coords.second) - static_cast<long>(up)) * cell_size_;
+      -(static_cast<long>(coords.second) - static_cast<long>(height_up_)) * cell_size_;
   return std::pair<double, double>(x, y);
 }
 
-- 
2.43.0


From 926292b298125cdff68472f681fd132b5d5cb8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 21/27] fix: copying a grid keeps its size and its empty cells

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index e8ec958..5463670 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -310,10 +310,9 @@ VoxelGrid2D<CellType>::VoxelGrid2D(const VoxelGrid2D& other)
   , valid_cells_(other.valid_cells_)
 {
   cells_.resize(other.cells_.size());
-  for (const std::unique_ptr<CellType>& cell : other.cells_) {
-    CellType* new_cell = new CellType;
-    *new_cell = *cell;
-    cells_.emplace_back(new_cell);
+  for (size_t i = 0; i < cells_.size(); ++i) {
+    if (other.cells_[i])
+      cells_[i].reset(new CellType(*other.cells_[i]));
   }
 }
 
-- 
2.43.0


From 7bc2bb45ee3dd50f80a672ae8a163cec2584f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 22/27] fix: rays shorter than one cell end in their first cell

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 5463670..db6f009 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -549,7 +549,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
-  for (size_t i = 0; i < 2 * static_cast<size_t>(std::floor(length)) - 1; ++i) {
+  for (size_t i = 1; i < 2 * static_cast<size_t>(std::floor(length)); ++i) {
     // total_dist += delta_dist;
     // if program  is still in the same cell like last time just step forward
     if (idx_current != idx_old) {
-- 
2.43.0


From 62e0f5dfe04586205f39ee2a7f08bed6654fdb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 23/27] fix: the number of valid cells follows cells created by
 rays and dropped by clear and translate

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index db6f009..3859b8e 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -546,6 +546,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
 
   if (cells_[idx_current].get() == nullptr) {
     cells_[idx_current].reset(new CellType());
+    ++valid_cells_;
   }
   res.push_back(cells_[idx_current].get());
   double total_dist = 0;
@@ -555,6 +556,7 @@ VoxelGrid2D<CellType>::rayTrace(const Point& start, const Point& end)
     if (idx_current != idx_old) {
       if (cells_[idx_current].get() == nullptr) {
         cells_[idx_current].reset(new CellType());
+        ++valid_cells_;
       }
       res.push_back(cells_[idx_current].get());
       // std::cout << p.transpose() << std::endl;
@@ -595,6 +597,11 @@ void VoxelGrid2D<CellType>::translate(const Eigen::Vector2i& translation,
   moveRight(right);
   moveUp(up);
   moveDown(down);
+  valid_cells_ = 0;
+  for (auto&& cell : cells_) {
+    if (cell.get() != nullptr)
+      ++valid_cells_;
+  }
 }
 
 template <typename CellType>
@@ -603,6 +610,7 @@ void VoxelGrid2D<CellType>::clear()
   for (auto&& cell : cells_) {
     cell.reset(nullptr);
   }
+  valid_cells_ = 0;
 }
 
 template <typename CellType>
-- 
2.43.0


From 021f3ef87996bd5e1bfef83ed9a27f41dd7a3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 24/27] fix: getCellPtr finds no cell outside of the grid

---
 ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
index 3859b8e..fa80063 100644
--- a/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
+++ b/ndt_gslam/include/ndt_gslam/ndt/voxel_grid2d.h
@@ -460,6 +460,8 @@ CellType& VoxelGrid2D<CellType>::operator[](const Point& pt)
 template <typename CellType>
 CellType* VoxelGrid2D<CellType>::getCellPtr(const Point& pt) const
 {
+  if (!isInside(pt))
+    return nullptr;
   return cells_[calcIndex(pt)].get();
 }
 
-- 
2.43.0


From 62b47337cabf3843756f6c273e560a37cbad806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 25/27] fix: eigt::matToVec2d is defined in the namespace that
 declares it

---
 ndt_gslam/include/ndt_gslam/utils/eigen_tools.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
index f8259ce..842fc32 100644
--- a/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
+++ b/ndt_gslam/include/ndt_gslam/utils/eigen_tools.h
@@ -132,7 +132,7 @@ eigt::pose2d_t<T> eigt::transformPose(const pose2d_t<T> &pose,
   return res_pose;
 }
 
-template <typename T = double>
+template <typename T>
 eigt::pose2d_t<T> eigt::transformConcat(const pose2d_t<T> &pose,
                                         const transform2d_t<T> &trans)
 {
@@ -206,7 +206,7 @@ T eigt::normalizeAngle(T angle)
   // return angle - 2 * M_PI *std::floor((angle + M_PI) / (2 * M_PI));
 }
 
-template <typename In, typename Out = In>
+template <typename In, typename Out>
 Eigen::Matrix<Out, 4, 4> eigt::vecToMat3d(const Eigen::Matrix<In, 3, 1> &trans)
 {
   Eigen::Matrix<Out, 4, 4> trans_mat = Eigen::Matrix<Out, 4, 4>::Identity();
@@ -221,7 +221,7 @@ Eigen::Matrix<Out, 4, 4> eigt::vecToMat3d(const Eigen::Matrix<In, 3, 1> &trans)
   return trans_mat;
 }
 
-template <typename In, typename Out = In>
+template <typename In, typename Out>
 Eigen::Matrix<Out, 3, 3> eigt::vecToMat2d(const Eigen::Matrix<In, 3, 1> &trans)
 {
   Eigen::Matrix<Out, 3, 3> trans_mat = Eigen::Matrix<Out, 3, 3>::Identity();
@@ -233,8 +233,8 @@ Eigen::Matrix<Out, 3, 3> eigt::vecToMat2d(const Eigen::Matrix<In, 3, 1> &trans)
   return trans_mat;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 2, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
@@ -245,8 +245,8 @@ Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 3, 3> &trans)
   return vec;
 }
 
-template <typename In, typename Out = In>
-Eigen::Matrix<Out, 3, 1> matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
+template <typename In, typename Out>
+Eigen::Matrix<Out, 3, 1> eigt::matToVec2d(const Eigen::Matrix<In, 4, 4> &trans)
 {
   Eigen::Matrix<Out, 3, 1> vec;
   Eigen::Transform<In, 3, Eigen::Affine, Eigen::ColMajor> trans_mat(trans);
-- 
2.43.0


From 9368b0ed1102d67fe44120adc6be26a1eaade4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 26/27] fix: printNodes does not copy the nodes

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index 7beeca1..eb83f3a 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -244,7 +244,7 @@ size_t Graph<P, T>::nodeCount()
 template <typename P, typename T>
 void Graph<P, T>::printNodes(std::ostream& out)
 {
-  for (auto nd : nodes_) {
+  for (auto& nd : nodes_) {
     nd->printNode(out);
   }
 }
-- 
2.43.0


From ce4059e8eb236b91908b116ca4102f8885d04bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 27/27] fix: addDataObj stores the object

---
 ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
index eb83f3a..5f1a71b 100644
--- a/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
+++ b/ndt_gslam/include/ndt_gslam/slam_optimizer/pose_graph.h
@@ -551,7 +551,7 @@ const T& Node<P, T>::getDataObj() const
 template <typename P, typename T>
 void Node<P, T>::addDataObj(T& obj)
 {
-  object_ = obj_ptr_t(*obj);
+  object_ = obj;
 }
 
 template <typename P, typename T>
-- 
2.43.0

