From de9caa8a0842cf84f1f55312b113b21dec55ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 01/17] fix: draw random samples from per-thread generators in
 parallel loops

---
 include/statistics.inc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/statistics.inc b/include/statistics.inc
index 5129ef4..55b5cb5 100644
--- a/include/statistics.inc
+++ b/include/statistics.inc
@@ -5,10 +5,10 @@
 #include "statistics.hpp"
 
 namespace lmb {
-    std::random_device rd{};
-    std::mt19937 gen{rd()};
-    static std::uniform_real_distribution<> udist;
-    static std::normal_distribution<> ndist;
+    // One generator per thread, since samples are drawn inside parallel loops
+    thread_local std::mt19937 gen{std::random_device{}()};
+    static thread_local std::uniform_real_distribution<> udist;
+    static thread_local std::normal_distribution<> ndist;
 
     double urand() {
         return udist(gen);
-- 
2.43.0


From 85b34f67f69a181d953fa6e5e914a63b54a7de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 02/17] fix: expose the hypothesis counts, not the report
 counts, as cluster_nhyps

---
 lmb/lmb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index e0a2d03..bd2125f 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -204,6 +204,6 @@ PYBIND11_MODULE(lmb, m) {
         .def("gospa", (double (Tracker::*)(const typename Tracker::TargetStates&, const double, const double))&Tracker::gospa)
         .def_readonly("cluster_ntargets", &Tracker::cluster_ntargets)
         .def_readonly("cluster_nreports", &Tracker::cluster_nreports)
-        .def_readonly("cluster_nhyps", &Tracker::cluster_nreports)
+        .def_readonly("cluster_nhyps", &Tracker::cluster_nhyps)
         .def_readonly("nof_clusters", &Tracker::nof_clusters);
 }
-- 
2.43.0


From dbafc9d6b68efcfeb1e571681d42f7ab5bf43f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 03/17] fix: resample particles sequentially, the cdf index is
 carried between iterations

---
 include/pf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index e930cf6..f3b5e4c 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -149,8 +149,8 @@ struct PF {
         double u0 = urand() * w0;
         unsigned j = 0;
 
+        // Not parallel: the position in the cdf is carried between iterations
         States x2; x2.resize(STATES, N);
-        PARFOR
         for (unsigned i = 0; i < N; ++i) {
             double u = u0 + i * w0;
             while (cdf[j] < u) { ++j; }
-- 
2.43.0


From 49038e6a10ea5185324d92a6d28574b350212d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 04/17] fix: let copies of a target summary refer to their own
 existence probability

---
 include/target.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index 36fdfd0..a9fbb44 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -30,6 +30,17 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
                    double w_, unsigned id_, unsigned cid_ = 0)
     : Parent(x_, P_, w_), r(this->w), id(id_), cid(cid_) {}
 
+    // r refers to the object's own weight, also in copies
+    TargetSummary_(const Self& o)
+    : Parent(o), r(this->w), id(o.id), cid(o.cid) {}
+
+    Self& operator=(const Self& o) {
+        Parent::operator=(o);
+        id = o.id;
+        cid = o.cid;
+        return *this;
+    }
+
     void repr(std::ostream& os) const {
         os << "{\"type\":\"T\""
            << ",\"id\":" << id
-- 
2.43.0


From 1cd60d48a000ea35535cdfe5cfcceb425d14ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 05/17] fix: hold the tree lock while clustering queries it and
 while printing the targets

---
 include/lmb.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index e396147..1595a33 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -333,9 +333,12 @@ class SILMB {
     void repr(std::ostream& os) const {
         os << "{\"targets\":[";
         bool first = true;
-        for (auto& t : targettree.targets) {
-            if (!first) { os << ","; } else { first = false; }
-            os << *t;
+        CRITICAL(ttree)
+        {
+            for (auto& t : targettree.targets) {
+                if (!first) { os << ","; } else { first = false; }
+                os << *t;
+            }
         }
         os << "]}";
     }
@@ -363,7 +366,10 @@ class SILMB {
 
         // Match reports to potential target matches
         for (auto r = std::begin(scan); r != std::end(scan); ++r) {
-            matching_targets[&(*r)] = targettree.query(r->llaabbox());
+            CRITICAL(ttree)
+            {
+                matching_targets[&(*r)] = targettree.query(r->llaabbox());
+            }
             for (auto t = std::begin(matching_targets[&(*r)]); t != std::end(matching_targets[&(*r)]); ++t) {  // NOLINT
                 matching_reports[*t].push_back(&(*r));
 #ifdef DEBUG_OUTPUT
-- 
2.43.0


From a5843f251ccc17d4e137564f31e6953d7878d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 06/17] fix: decide crossing boxes independently of their order
 and corner orientation

---
 include/bbox.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 8eb7c57..b378931 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -198,7 +198,7 @@ struct BBox {
         double x3 = b0.x(); double y3 = b0.y();
         double x4 = b2.x(); double y4 = b2.y();
         auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (denom < 1e-9) {
+        if (std::abs(denom) < 1e-9) {
             return false;
         }
         auto centerpoint = Eigen::Vector2d();
@@ -206,7 +206,7 @@ struct BBox {
             (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
             (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
         centerpoint /= denom;
-        return within(centerpoint);
+        return within(centerpoint) && other.within(centerpoint);
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From bb0f5b60f2e759779d3848c054335bf30c0be7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 07/17] fix: pair each axis of a gaussian's bounding box with
 its own eigenvalue

---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index b378931..4e5c20a 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -49,7 +49,7 @@ struct AABBox {
 
         double r1 = nstd * std::sqrt(l[0]);
         double r2 = nstd * std::sqrt(l[1]);
-        double theta = std::atan2(e.col(1).y(), e.col(1).x());
+        double theta = std::atan2(e.col(0).y(), e.col(0).x());
 
         double ux = r1 * std::cos(theta);
         double uy = r1 * std::sin(theta);
-- 
2.43.0


From 0e4c21f139d6e0bbecb57e08282dd02e35086a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 08/17] fix: leave the targets untouched when computing
 position phd, ospa and gospa

---
 include/lmb.hpp    | 14 +++++---------
 include/target.hpp |  7 +++++--
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 1595a33..341a664 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -223,9 +223,9 @@ class SILMB {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
             for (auto t : targets) {
-                t->transform_to_local(origin);
-                t->pdf.sample_pos(samples);
-                t->transform_to_global();
+                PDF pdf(t->pdf);
+                pdf.transform_to_local(origin);
+                pdf.sample_pos(samples);
                 for (auto s = 0; s < nof_samples; ++s) {
                     Eigen::Vector2i p = ((samples.col(s).array() - corner) / gridsize).floor().cast<int>();
                     if (p.x() < size.x() && p.y() < size.y() && p.x() >=0 && p.y() >= 0) {
@@ -265,9 +265,7 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(c);
                 for (int i = 0; i < M; ++i) {
-                    targettree.targets[i]->transform_to_local(origin);
-                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->distance(netruth, origin, C.block(i, 0, 1, N));
                 }
                 C = C.cwiseMin(c);
 
@@ -316,9 +314,7 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(cp / 2);
                 for (int i = 0; i < M; ++i) {
-                    targettree.targets[i]->transform_to_local(origin);
-                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->distance(netruth, origin, C.block(i, 0, 1, N));
                 }
                 C.block(0, 0, M, N).array() =
                     C.block(0, 0, M, N).cwiseMin(c).array().pow(p);
diff --git a/include/target.hpp b/include/target.hpp
index a9fbb44..68d1f1b 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -151,10 +151,13 @@ struct Target_ {
         mres = -std::log(r * pdfs[M].missed(sensor));
     }
 
+    // Distance to points given in the NE frame of the origin
     template<typename Points, typename RES>
-    void distance(const Points& points, RES&& res) const {
+    void distance(const Points& points, const cf::LL& origin, RES&& res) const {
         unsigned M = points.size();
-        auto m = pdf.mean();
+        PDF local(pdf);
+        local.transform_to_local(origin);
+        auto m = local.mean();
 
         for (unsigned j = 0; j < M; ++j) {
             res(0, j) = (points[j] - m).norm();
-- 
2.43.0


From 4390c635293b2409be4c08c2ce38c47e304539d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 09/17] fix: draw every requested sample of a mixture, in all
 of its state dimensions

---
 include/gm.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 029927a..87c93ec 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -2,6 +2,7 @@
 #pragma once
 #include <Eigen/Dense>
 #include <Eigen/StdVector>
+#include <algorithm>
 #include <cmath>
 #include <numeric>
 #include <queue>
@@ -208,8 +209,11 @@ struct GM {
     void sample(RES& res) const {
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
+            // The last component fills up what the rounding leaves
+            unsigned left = res.cols() - col;
+            unsigned csamples = (i + 1 == c.size()) ? left
+                : std::min(left, static_cast<unsigned>(c[i].w * res.cols()));
+            auto tmp = res.block(0, col, STATES, csamples);
             c[i].sample(tmp);
             col += csamples;
         }
@@ -219,7 +223,10 @@ struct GM {
     void sample_pos(RES& res) const {
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
+            // The last component fills up what the rounding leaves
+            unsigned left = res.cols() - col;
+            unsigned csamples = (i + 1 == c.size()) ? left
+                : std::min(left, static_cast<unsigned>(c[i].w * res.cols()));
             auto tmp = res.block(0, col, 2, csamples);
             c[i].sample_pos(tmp);
             col += csamples;
-- 
2.43.0


From 177362906fbf53ef391396c4cc6562f6f2401307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 10/17] fix: do not average over hypotheses of zero weight

---
 include/cluster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 7c3c4a3..1bcfa76 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -90,6 +90,10 @@ struct Cluster_ {
             // Draw most relevant hypotheses using Murty's algorithm
             while (murty.draw(res, cost)) {
                 w = std::exp(-cost);
+                if (!(w > 0)) {
+                    // Only impossible hypotheses remain
+                    break;
+                }
                 w_sum += w;
                 #pragma omp parallel for
                 for (unsigned i = 0; i < M; ++i) {
-- 
2.43.0


From 0842a2bfe9999e33f168fb2a7063131063ed7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 11/17] fix: boxes overlap unless a side of one separates them

---
 include/bbox.hpp | 47 ++++++++++++++---------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 4e5c20a..df7d9c6 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -170,43 +170,24 @@ struct BBox {
                    x + r1 * e.col(0) - r2 * e.col(1);
     }
 
-    bool intersects(const BBox& other) const {
+    // Whether the normal of some side of this box has all of the other box on
+    // its far side
+    bool separates(const BBox& other) const {
         for (int i = 0; i < corners.cols(); ++i) {
-            if (other.within(corners.col(i))) {
+            const Eigen::Vector2d side = corners.col((i + 1) % corners.cols()) - corners.col(i);
+            const Eigen::RowVector2d normal(-side.y(), side.x());
+            const Eigen::RowVector4d a = normal * corners;
+            const Eigen::RowVector4d b = normal * other.corners;
+            if (a.maxCoeff() < b.minCoeff() || b.maxCoeff() < a.minCoeff()) {
                 return true;
             }
         }
-        for (int i = 0; i < other.corners.cols(); ++i) {
-            if (within(other.corners.col(i))) {
-                return true;
-            }
-        }
-        if (corners == other.corners) {
-            return true;
-        }
-        // "SWISS CROSS"!
-        // Find a point that would be in the center of both boxes
-        // in this case - the intersection of the boxes' diagonals -
-        // and check if it's inside the box.
-        // Line-line intersection: https://en.wikipedia.org/wiki/Line%E2%80%93line_intersection
-        auto a0 = corners.col(0);  // (x1, y1)
-        auto a2 = corners.col(2);  // (x2, y2)
-        auto b0 = other.corners.col(0);  // (x3, y3)
-        auto b2 = other.corners.col(2);  // (x4, y4)
-        double x1 = a0.x(); double y1 = a0.y();
-        double x2 = a2.x(); double y2 = a2.y();
-        double x3 = b0.x(); double y3 = b0.y();
-        double x4 = b2.x(); double y4 = b2.y();
-        auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (std::abs(denom) < 1e-9) {
-            return false;
-        }
-        auto centerpoint = Eigen::Vector2d();
-        centerpoint <<
-            (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
-            (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
-        centerpoint /= denom;
-        return within(centerpoint) && other.within(centerpoint);
+        return false;
+    }
+
+    // Convex boxes are disjoint exactly if a side of one of them separates them
+    bool intersects(const BBox& other) const {
+        return !separates(other) && !other.separates(*this);
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From fcba01a81ce3055101f56c763919eac2acf7a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 12/17] fix: solve assignments for the cost matrix itself, not
 its transpose

---
 include/rlapjv.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 4ebc291..6e9c99d 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -552,7 +552,9 @@ nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-    rlap<int, double>(rows, cols, C.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
+    // The solver reads the costs row by row, whatever the storage order of C
+    const lap::CostMatrix costs = C;
+    rlap<int, double>(rows, cols, costs.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
     //std::cout << "rowsol: " << rowsol.transpose() << std::endl;
     //std::cout << "colsol: " << colsol.transpose() << std::endl;
     return !(rowsol.array() < 0).any();
-- 
2.43.0


From aace5ffdccfaaca88d1f688d9a4f18aff9611c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 13/17] fix: decide feasibility of an assignment by matching,
 in polynomial time and for any number of rows

---
 include/rlapjv.h | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 6e9c99d..7c3c693 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -2,8 +2,10 @@
 // https://raw.githubusercontent.com/ClementLF/rlapjv/master/rlapjv.h
 #include <cassert>
 #include <cstdio>
+#include <functional>
 #include <limits>
 #include <memory>
+#include <vector>
 #include <Eigen/Dense>
 
 namespace lap {
@@ -514,8 +516,6 @@ cost rlap(int dim0, int dim1,
     return rlapcost;
 }
 
-#define popcount __builtin_popcount
-
 template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
 bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     int rows = C.rows();
@@ -525,30 +525,30 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     colsol.setZero();
     u.setZero();
     v.setZero();
-    int neighbours;
 
     Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> notinf =  !C.array().isInf();
-    for (int n = 1; n < std::pow(2, rows); ++n) {
-        neighbours = 0;
-        int popsize = popcount(n);
+    // Feasible only if every row can be matched to a column of finite cost (augmenting paths)
+    std::vector<int> match(cols, -1);
+    std::vector<bool> seen(cols);
+    std::function<bool(int)> augment = [&](const int row) {
         for (int col = 0; col < cols; ++col) {
-            for (int row = 0; row < rows; ++row) {
-                if (n & (1 << row) && notinf(row, col)) {
-                    ++neighbours;
-                    if(neighbours < popsize) {
-                        goto nextcol;
-                    } else if(neighbours == popsize) {
-                        goto nextn;
-                    }
+            if (notinf(row, col) && !seen[col]) {
+                seen[col] = true;
+                if (match[col] < 0 || augment(match[col])) {
+                    match[col] = row;
+                    return true;
                 }
             }
-nextcol:;
         }
-
-        //std::cout << "NOK matrix: " << std::endl;
-        //std::cout << C << std::endl;
         return false;
-nextn:;
+    };
+    for (int row = 0; row < rows; ++row) {
+        seen.assign(cols, false);
+        if (!augment(row)) {
+            //std::cout << "NOK matrix: " << std::endl;
+            //std::cout << C << std::endl;
+            return false;
+        }
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-- 
2.43.0


From 10beb3dc5fa5914989026558cfadc65545d96cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 14/17] fix: assign ospa's costs raised to the power the score
 is summed with

---
 include/lmb.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 341a664..8443afc 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -267,18 +267,12 @@ class SILMB {
                 for (int i = 0; i < M; ++i) {
                     targettree.targets[i]->distance(netruth, origin, C.block(i, 0, 1, N));
                 }
-                C = C.cwiseMin(c);
+                // The cheapest assignment depends on p: the costs are raised before
+                // they are assigned
+                C = C.cwiseMin(c).array().pow(p);
 
-                // Note that since exp() is strictly increasing, C and C.^p yields the
-                // same assignments. By only raising the result, we compute fewer
-                // exponentials
                 auto res = lap::lap(C);
-
-                double cost = 0;
-                for (unsigned i = 0; i < res.rows(); ++i) {
-                    cost += std::pow(C(i, res[i]), p);
-                }
-                score = std::pow(cost / n, 1.0 / p);
+                score = std::pow(lap::cost(C, res) / n, 1.0 / p);
             }
         }
         return score;
-- 
2.43.0


From 54e6541e1b94f28a7bdd9c45c8e4a86547f11343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 15/17] fix: a particle density drawn from a mean and
 covariance is valid and has a box

---
 include/pf.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index f3b5e4c..02d9f2b 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -78,6 +78,7 @@ struct PF {
         std::iota(std::begin(permutation), std::end(permutation), 0);
         nrand(x, mean, covariance);
         w.setConstant(1.0 / N);
+        valid = true;
         transform_to_local(pos());
         transform_to_global();
     }
@@ -153,7 +154,8 @@ struct PF {
         States x2; x2.resize(STATES, N);
         for (unsigned i = 0; i < N; ++i) {
             double u = u0 + i * w0;
-            while (cdf[j] < u) { ++j; }
+            // The cdf may end just below 1
+            while (j + 1 < N && cdf[j] < u) { ++j; }
             x2.col(i) = x.col(j);
         }
         x = x2;
@@ -259,6 +261,7 @@ struct PF {
         }
         bbox = bbox.llbbox(origin);
         aabbox = bbox.aabbox();
+        _llaabbox = aabbox;
     }
 };
 
-- 
2.43.0


From 08c6e16803b7b96fb03c8f320c542edd3398aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 16/17] fix: a new tracker has no clusters rather than an
 undefined number

---
 include/lmb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 8443afc..60f3d80 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -40,7 +40,7 @@ class SILMB {
     Params params;
 
     TargetTree targettree;
-    unsigned nof_clusters;
+    unsigned nof_clusters = 0;
     std::vector<int> cluster_ntargets;
     std::vector<int> cluster_nreports;
     std::vector<int> cluster_nhyps;
-- 
2.43.0


From f32dbf6de906f855b9eb1e9caf3513f8c94b663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 17/17] fix: weigh particles by their miss probability when
 they are not detected

---
 include/pf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index 02d9f2b..3b29aae 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -107,10 +107,10 @@ struct PF {
     double missed(const Sensor& s) {
         PARFOR
         for (unsigned i = 0; i < N; ++i) {
-            w[i] *= s.pD(Particle(x.col(i)), origin);
+            w[i] *= 1 - s.pD(Particle(x.col(i)), origin);
         }
         normalize();
-        return 1 - eta;
+        return eta;
     }
 
     void normalize() {
-- 
2.43.0

