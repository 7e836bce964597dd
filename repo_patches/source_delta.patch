From 0b9f8cd2d1f00998b07d01c63fbe7212a8472ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 01/20] fix: AABBox of a Gaussian had its axes swapped

r1 belongs to eigenvector 0, but was laid out along eigenvector 1.
---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 8eb7c57..a065fea 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -49,7 +49,7 @@ struct AABBox {
 
         double r1 = nstd * std::sqrt(l[0]);
         double r2 = nstd * std::sqrt(l[1]);
-        double theta = std::atan2(e.col(1).y(), e.col(1).x());
+        double theta = std::atan2(e.col(0).y(), e.col(0).x());
 
         double ux = r1 * std::cos(theta);
         double uy = r1 * std::sin(theta);
-- 
2.43.0


From 5364ba2eff4b3d636abe11fd71e25e5de33ecda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 02/20] fix: BBox::intersects missed crossing boxes

The diagonal test gave up whenever the determinant was negative, so the
answer depended on the order of the operands and of the corners.
---
 include/bbox.hpp | 46 ++++++++++++----------------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index a065fea..ab1e790 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -171,42 +171,20 @@ struct BBox {
     }
 
     bool intersects(const BBox& other) const {
-        for (int i = 0; i < corners.cols(); ++i) {
-            if (other.within(corners.col(i))) {
-                return true;
+        // Separating axis theorem: two convex polygons are disjoint iff the
+        // normal of one of their edges separates them.
+        for (auto edges : {&corners, &other.corners}) {
+            for (int i = 0, j = edges->cols() - 1; i < edges->cols(); j = i++) {
+                Eigen::RowVector2d normal(edges->col(j).y() - edges->col(i).y(),
+                                          edges->col(i).x() - edges->col(j).x());
+                auto a = (normal * corners).eval();
+                auto b = (normal * other.corners).eval();
+                if (a.maxCoeff() < b.minCoeff() || b.maxCoeff() < a.minCoeff()) {
+                    return false;
+                }
             }
         }
-        for (int i = 0; i < other.corners.cols(); ++i) {
-            if (within(other.corners.col(i))) {
-                return true;
-            }
-        }
-        if (corners == other.corners) {
-            return true;
-        }
-        // "SWISS CROSS"!
-        // Find a point that would be in the center of both boxes
-        // in this case - the intersection of the boxes' diagonals -
-        // and check if it's inside the box.
-        // Line-line intersection: https://en.wikipedia.org/wiki/Line%E2%80%93line_intersection
-        auto a0 = corners.col(0);  // (x1, y1)
-        auto a2 = corners.col(2);  // (x2, y2)
-        auto b0 = other.corners.col(0);  // (x3, y3)
-        auto b2 = other.corners.col(2);  // (x4, y4)
-        double x1 = a0.x(); double y1 = a0.y();
-        double x2 = a2.x(); double y2 = a2.y();
-        double x3 = b0.x(); double y3 = b0.y();
-        double x4 = b2.x(); double y4 = b2.y();
-        auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (denom < 1e-9) {
-            return false;
-        }
-        auto centerpoint = Eigen::Vector2d();
-        centerpoint <<
-            (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
-            (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
-        centerpoint /= denom;
-        return within(centerpoint);
+        return true;
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From ffb1194c1e9f6776edc9431611b596e69311d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 03/20] fix: lap() read column-major matrices transposed

rlap walks the costs row by row; ospa and gospa hand lap a column-major
matrix.
---
 include/rlapjv.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 4ebc291..21279a8 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -552,7 +552,9 @@ nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-    rlap<int, double>(rows, cols, C.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
+    // rlap indexes the costs row by row
+    const lap::CostMatrix rowmajor(C);
+    rlap<int, double>(rows, cols, rowmajor.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
     //std::cout << "rowsol: " << rowsol.transpose() << std::endl;
     //std::cout << "colsol: " << colsol.transpose() << std::endl;
     return !(rowsol.array() < 0).any();
-- 
2.43.0


From 8c289cc1871c0f8edd30c7f02af8bf167e1e515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 04/20] fix: lap() feasibility check did not end for 31 rows or
 more

The check enumerated the subsets of rows in an int; use augmenting paths.
---
 include/rlapjv.h | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 21279a8..50103a9 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -2,8 +2,10 @@
 // https://raw.githubusercontent.com/ClementLF/rlapjv/master/rlapjv.h
 #include <cassert>
 #include <cstdio>
+#include <functional>
 #include <limits>
 #include <memory>
+#include <vector>
 #include <Eigen/Dense>
 
 namespace lap {
@@ -514,8 +516,6 @@ cost rlap(int dim0, int dim1,
     return rlapcost;
 }
 
-#define popcount __builtin_popcount
-
 template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
 bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     int rows = C.rows();
@@ -525,30 +525,28 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     colsol.setZero();
     u.setZero();
     v.setZero();
-    int neighbours;
-
+    // There is a finite assignment iff every row can be matched to a column of
+    // its own along finite costs (bipartite matching by augmenting paths).
     Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> notinf =  !C.array().isInf();
-    for (int n = 1; n < std::pow(2, rows); ++n) {
-        neighbours = 0;
-        int popsize = popcount(n);
+    std::vector<int> match(cols, -1);
+    std::vector<bool> visited;
+    std::function<bool(int)> augment = [&](int row) {
         for (int col = 0; col < cols; ++col) {
-            for (int row = 0; row < rows; ++row) {
-                if (n & (1 << row) && notinf(row, col)) {
-                    ++neighbours;
-                    if(neighbours < popsize) {
-                        goto nextcol;
-                    } else if(neighbours == popsize) {
-                        goto nextn;
-                    }
+            if (notinf(row, col) && !visited[col]) {
+                visited[col] = true;
+                if (match[col] < 0 || augment(match[col])) {
+                    match[col] = row;
+                    return true;
                 }
             }
-nextcol:;
         }
-
-        //std::cout << "NOK matrix: " << std::endl;
-        //std::cout << C << std::endl;
         return false;
-nextn:;
+    };
+    for (int row = 0; row < rows; ++row) {
+        visited.assign(cols, false);
+        if (!augment(row)) {
+            return false;
+        }
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-- 
2.43.0


From e402189dafa9b7d9df48f6f2a82678f84e37cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 05/20] fix: OSPA assigned on the distances, not on their p-th
 powers

The sum of p-th powers is not minimised by the assignment that minimises
the sum.
---
 include/lmb.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index e396147..94c1714 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -269,17 +269,10 @@ class SILMB {
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
                     targettree.targets[i]->transform_to_global();
                 }
-                C = C.cwiseMin(c);
+                C = C.cwiseMin(c).array().pow(p).matrix().eval();
 
-                // Note that since exp() is strictly increasing, C and C.^p yields the
-                // same assignments. By only raising the result, we compute fewer
-                // exponentials
                 auto res = lap::lap(C);
-
-                double cost = 0;
-                for (unsigned i = 0; i < res.rows(); ++i) {
-                    cost += std::pow(C(i, res[i]), p);
-                }
+                double cost = lap::cost(C, res);
                 score = std::pow(cost / n, 1.0 / p);
             }
         }
-- 
2.43.0


From 10ab473e98ea63ed9b567e8cb64a9799c08e9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 06/20] fix: ospa, gospa and pos_phd moved the targets they
 measure

The round trip to a far away origin is not exact, and it left the
bounding boxes out of step with the spatial index.
---
 include/lmb.hpp    | 18 +++++++++---------
 include/target.hpp |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 94c1714..ffba183 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -223,9 +223,9 @@ class SILMB {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
             for (auto t : targets) {
-                t->transform_to_local(origin);
-                t->pdf.sample_pos(samples);
-                t->transform_to_global();
+                auto pdf = t->pdf;
+                pdf.transform_to_local(origin);
+                pdf.sample_pos(samples);
                 for (auto s = 0; s < nof_samples; ++s) {
                     Eigen::Vector2i p = ((samples.col(s).array() - corner) / gridsize).floor().cast<int>();
                     if (p.x() < size.x() && p.y() < size.y() && p.x() >=0 && p.y() >= 0) {
@@ -265,9 +265,9 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(c);
                 for (int i = 0; i < M; ++i) {
-                    targettree.targets[i]->transform_to_local(origin);
-                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    auto pdf = targettree.targets[i]->pdf;
+                    pdf.transform_to_local(origin);
+                    Target::distance(pdf, netruth, C.block(i, 0, 1, N));
                 }
                 C = C.cwiseMin(c).array().pow(p).matrix().eval();
 
@@ -309,9 +309,9 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(cp / 2);
                 for (int i = 0; i < M; ++i) {
-                    targettree.targets[i]->transform_to_local(origin);
-                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    auto pdf = targettree.targets[i]->pdf;
+                    pdf.transform_to_local(origin);
+                    Target::distance(pdf, netruth, C.block(i, 0, 1, N));
                 }
                 C.block(0, 0, M, N).array() =
                     C.block(0, 0, M, N).cwiseMin(c).array().pow(p);
diff --git a/include/target.hpp b/include/target.hpp
index 36fdfd0..b3da8a2 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -141,7 +141,7 @@ struct Target_ {
     }
 
     template<typename Points, typename RES>
-    void distance(const Points& points, RES&& res) const {
+    static void distance(const PDF& pdf, const Points& points, RES&& res) {
         unsigned M = points.size();
         auto m = pdf.mean();
 
-- 
2.43.0


From cc3eb283a8d7bccfa3bca6a21dfcac3285a0b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 07/20] fix: copies of TargetSummary referred to the weight of
 the original

---
 include/target.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index b3da8a2..8969db1 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -30,6 +30,17 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
                    double w_, unsigned id_, unsigned cid_ = 0)
     : Parent(x_, P_, w_), r(this->w), id(id_), cid(cid_) {}
 
+    // r refers to this object's own weight, also in a copy
+    TargetSummary_(const Self& b)
+    : Parent(b), r(this->w), id(b.id), cid(b.cid) {}
+
+    Self& operator=(const Self& b) {
+        Parent::operator=(b);
+        id = b.id;
+        cid = b.cid;
+        return *this;
+    }
+
     void repr(std::ostream& os) const {
         os << "{\"type\":\"T\""
            << ",\"id\":" << id
-- 
2.43.0


From 525f46e67ce4da19dee7b77edf8b17ae7ee98cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 08/20] fix: cluster_nhyps reported the number of reports in
 Python

---
 lmb/lmb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index e0a2d03..bd2125f 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -204,6 +204,6 @@ PYBIND11_MODULE(lmb, m) {
         .def("gospa", (double (Tracker::*)(const typename Tracker::TargetStates&, const double, const double))&Tracker::gospa)
         .def_readonly("cluster_ntargets", &Tracker::cluster_ntargets)
         .def_readonly("cluster_nreports", &Tracker::cluster_nreports)
-        .def_readonly("cluster_nhyps", &Tracker::cluster_nreports)
+        .def_readonly("cluster_nhyps", &Tracker::cluster_nhyps)
         .def_readonly("nof_clusters", &Tracker::nof_clusters);
 }
-- 
2.43.0


From ae871c6c38fdaf3d29b8a4c3f0d8062640f2b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 09/20] fix: hypothesis weights under- and overflowed

A cluster whose best hypothesis costs more than about 745 got NaN weights,
which also suppressed every birth of the scan.
---
 include/cluster.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 7c3c4a3..a98e80b 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -85,11 +85,15 @@ struct Cluster_ {
             double cost;
             double w;
             double w_sum = 0;
+            double cost0 = 0;
             Eigen::MatrixXd R(M, N + 1);
             R.setZero();
             // Draw most relevant hypotheses using Murty's algorithm
             while (murty.draw(res, cost)) {
-                w = std::exp(-cost);
+                // Weights are relative to the best hypothesis, since
+                // exp(-cost) may over- or underflow
+                if (n == 0) { cost0 = cost; }
+                w = std::exp(cost0 - cost);
                 w_sum += w;
                 #pragma omp parallel for
                 for (unsigned i = 0; i < M; ++i) {
-- 
2.43.0


From 1250e2955132d0bdd081fddeeb3c18eea340be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 10/20] fix: random generator was shared between the OpenMP
 threads

---
 include/statistics.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/statistics.inc b/include/statistics.inc
index 5129ef4..034956d 100644
--- a/include/statistics.inc
+++ b/include/statistics.inc
@@ -6,9 +6,10 @@
 
 namespace lmb {
     std::random_device rd{};
-    std::mt19937 gen{rd()};
-    static std::uniform_real_distribution<> udist;
-    static std::normal_distribution<> ndist;
+    // Drawn from in parallel
+    thread_local std::mt19937 gen{rd()};
+    static thread_local std::uniform_real_distribution<> udist;
+    static thread_local std::normal_distribution<> ndist;
 
     double urand() {
         return udist(gen);
-- 
2.43.0


From 909c3bb187b2b8c2f7c14700267c9c448a500b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 11/20] fix: GM sampling left the last columns unset

The number of samples per component is rounded down, so pos_phd counted
stale or uninitialised samples.
---
 include/gm.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 029927a..6793cfb 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -208,7 +208,8 @@ struct GM {
     void sample(RES& res) const {
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
+            // The last component takes what rounding down left over
+            unsigned csamples = (i + 1 < c.size()) ? unsigned(c[i].w * res.cols()) : res.cols() - col;
             auto tmp = res.block(0, col, 2, csamples);
             c[i].sample(tmp);
             col += csamples;
@@ -219,7 +220,8 @@ struct GM {
     void sample_pos(RES& res) const {
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
+            // The last component takes what rounding down left over
+            unsigned csamples = (i + 1 < c.size()) ? unsigned(c[i].w * res.cols()) : res.cols() - col;
             auto tmp = res.block(0, col, 2, csamples);
             c[i].sample_pos(tmp);
             col += csamples;
-- 
2.43.0


From be4dc4ce25e14cdb0f53a837b0ea78b9f9df2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 12/20] fix: PF::missed weighted the particles by pD, not by 1
 - pD

---
 include/pf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index e930cf6..43aad47 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -106,10 +106,10 @@ struct PF {
     double missed(const Sensor& s) {
         PARFOR
         for (unsigned i = 0; i < N; ++i) {
-            w[i] *= s.pD(Particle(x.col(i)), origin);
+            w[i] *= 1 - s.pD(Particle(x.col(i)), origin);
         }
         normalize();
-        return 1 - eta;
+        return eta;
     }
 
     void normalize() {
-- 
2.43.0


From ccedfea435033d5b8a8809d9845e72e1bbf9d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 13/20] fix: PF::resample shared its cursor between threads

and could run past the end when the weights sum to less than one.
---
 include/pf.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index 43aad47..ad51b12 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -150,10 +150,9 @@ struct PF {
         unsigned j = 0;
 
         States x2; x2.resize(STATES, N);
-        PARFOR
         for (unsigned i = 0; i < N; ++i) {
             double u = u0 + i * w0;
-            while (cdf[j] < u) { ++j; }
+            while (j + 1 < N && cdf[j] < u) { ++j; }
             x2.col(i) = x.col(j);
         }
         x = x2;
-- 
2.43.0


From f045276f744dbd6e282d53d10be22e25119b6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 14/20] fix: PF never computed its bounding boxes

---
 include/pf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pf.hpp b/include/pf.hpp
index ad51b12..6030366 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -78,6 +78,7 @@ struct PF {
         std::iota(std::begin(permutation), std::end(permutation), 0);
         nrand(x, mean, covariance);
         w.setConstant(1.0 / N);
+        valid = true;
         transform_to_local(pos());
         transform_to_global();
     }
@@ -258,6 +259,7 @@ struct PF {
         }
         bbox = bbox.llbbox(origin);
         aabbox = bbox.aabbox();
+        _llaabbox = aabbox;
     }
 };
 
-- 
2.43.0


From ad5a08b540fdcccd92be22fabc7e8c7ddbf12bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 15/20] fix: BBox::intersects(AABBox) compared bounding boxes
 only

---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index ab1e790..a29b863 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -188,7 +188,7 @@ struct BBox {
     }
 
     bool intersects(const AABBox& aabb) const {
-        return aabbox().intersects(aabb);
+        return intersects(BBox(aabb));
     }
 
     template<typename State>
-- 
2.43.0


From a340a6d4191e9ed2832da62c6de7584629f142a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 16/20] fix: lap() row reduction could run almost for ever on
 nearly equal costs

---
 include/rlapjv.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 50103a9..7c581c3 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -307,9 +307,11 @@ cost rlap(int dim0, int dim1,
         idx k = 0;
         idx prevnumfree = numfree;
         numfree = 0; // start list of rows still free after augmenting row reduction.
+        long steps = 0; // rows that compete for nearly equal columns would take turns almost for ever.
         while (k < prevnumfree)
         {
             idx i = free[k++];
+            bool reduce = ++steps <= static_cast<long>(k) * dim1;
 
             // find minimum and second minimum reduced cost over columns.
             cost umin, usubmin;
@@ -318,14 +320,14 @@ cost rlap(int dim0, int dim1,
 
             idx i0 = colsol[j1];
             cost vj1_new = v[j1] - (usubmin - umin);
-            bool vj1_lowers = vj1_new < v[j1]; // the trick to eliminate the epsilon bug
+            bool vj1_lowers = reduce && vj1_new < v[j1]; // the trick to eliminate the epsilon bug
             if (vj1_lowers)
             {
                 // change the reduction of the minimum column to increase the minimum
                 // reduced cost in the row to the subminimum.
                 v[j1] = vj1_new;
             }
-            else if (i0 >= 0)
+            else if (i0 >= 0 && reduce)
             { // minimum and subminimum equal.
                 // minimum column j1 is assigned.
                 // swap columns j1 and j2, as j2 may be unassigned.
-- 
2.43.0


From 357bda917437e420ddc2dca0aae735c29bbfd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 17/20] fix: samples of singular covariances were NaN

The eigenvalues of a singular covariance come out a little below zero as
often as a little above.
---
 include/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/statistics.hpp b/include/statistics.hpp
index 2510d84..a23369c 100644
--- a/include/statistics.hpp
+++ b/include/statistics.hpp
@@ -10,7 +10,7 @@ namespace lmb {
     void nrand(RES& res, const MEAN mean, const COV covariance) {
         Eigen::SelfAdjointEigenSolver<COV> eigenSolver(covariance);
         auto transform = eigenSolver.eigenvectors() \
-            * eigenSolver.eigenvalues().cwiseSqrt().asDiagonal();
+            * eigenSolver.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal();
         for(Eigen::DenseIndex i = 0; i < res.cols(); ++i) {
             res.col(i) = mean + transform * MEAN{}.unaryExpr(
                 [&](auto) { return nrand(); } );
-- 
2.43.0


From 648561078db9557bd6d0686ca5fc99ae90e26cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 18/20] fix: GM::sample drew only two rows of the state

---
 include/gm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 6793cfb..3ae46bf 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -210,7 +210,7 @@ struct GM {
         for (unsigned i = 0; i < c.size(); ++i) {
             // The last component takes what rounding down left over
             unsigned csamples = (i + 1 < c.size()) ? unsigned(c[i].w * res.cols()) : res.cols() - col;
-            auto tmp = res.block(0, col, 2, csamples);
+            auto tmp = res.block(0, col, res.rows(), csamples);
             c[i].sample(tmp);
             col += csamples;
         }
-- 
2.43.0


From d8d5147516660b16f7f2adb72222fbf8b5e0cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 19/20] fix: covariance ellipses were turned by radians taken
 for degrees

---
 clmb.py     | 2 +-
 lmb/plot.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clmb.py b/clmb.py
index e89da73..0799252 100644
--- a/clmb.py
+++ b/clmb.py
@@ -142,7 +142,7 @@ def plot_traces(targets, cseed=0, covellipse=True, max_back=None, **kwargs):
 def plot_cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=theta, **kwargs)
+    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
diff --git a/lmb/plot.py b/lmb/plot.py
index 2030898..97160e2 100644
--- a/lmb/plot.py
+++ b/lmb/plot.py
@@ -95,7 +95,7 @@ def clusters(history, origin, c=0):
 def cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = calc_cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=theta, **kwargs)
+    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=-np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
-- 
2.43.0


From 995fbfe97713994a9ccc4a0db686aef92f7c6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 20/20] fix: Application.plot_tracks called functions that do
 not exist

---
 lmb/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lmb/application.py b/lmb/application.py
index 9de9656..1236e16 100644
--- a/lmb/application.py
+++ b/lmb/application.py
@@ -82,8 +82,8 @@ class Application:
         extent = (neregion.min[1], neregion.max[1], neregion.min[0], neregion.max[0])
         lmb.plot.phd(phd, extent=extent)
 
-        lmb.plot.plot_scan(reports, self.origin, bbox=True, show_cid=True, clustercolor=True)
-        lmb.plot.plot_tracks(history, self.origin, covellipse=True, bbox=True, min_r=0.3, clustercolor=True)
+        lmb.plot.scan(reports, self.origin, draw_bbox=True, show_cid=True, clustercolor=True)
+        lmb.plot.tracks(history, self.origin, covellipse=True, draw_bbox=True, min_r=0.3, clustercolor=True)
         plt.gca().set_xlim(extent[0:2])
         plt.gca().set_ylim(extent[2:4])
 
-- 
2.43.0

