From 3e0b961f27ce961eff0c6ddfab6d9197e34febf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 01/28] fix: read face quality with at() in the parallel
 max_element comparators

unordered_map::operator[] is a modifying operation (it may insert and rehash);
calling it concurrently from a comparator run under the parallel policy is a
data race. Use the const lookup.
---
 inc/topology/tessellations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 470588b..dabf88e 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -483,7 +483,7 @@ namespace bw_detail
                 GBS_PAR_EXEC
                 faces_lst.begin(), faces_lst.end(),
                 [&face_quality](const auto &hf1, const auto &hf2) {
-                    return face_quality[hf1] < face_quality[hf2];
+                    return face_quality.at(hf1) < face_quality.at(hf2);
                 });
 
             auto d_G_UV = dist_mesh_srf(*it);
@@ -531,7 +531,7 @@ namespace bw_detail
                 GBS_PAR_EXEC
                 faces_lst.begin(), faces_lst.end(),
                 [&face_quality](const auto &hf1, const auto &hf2) {
-                    return face_quality[hf1] < face_quality[hf2];
+                    return face_quality.at(hf1) < face_quality.at(hf2);
                 });
 
             auto d_G_UV = dist_mesh(*it);
-- 
2.43.0


From bb9ff531f3208badc3e0e2dcc1b8a25256932b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:37 +0000
Subject: [PATCH 02/28] fix: merge_weights rejects a weight vector of another
 length than the poles

---
 gbs/basisfunctions.ixx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..90b9d1b 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -849,6 +849,8 @@
     template <typename T, size_t dim>
     auto merge_weights(const std::vector<std::array<T, dim>> &poles, const std::vector<T> &weights) -> std::vector<std::array<T, dim + 1>>
     {
+        if(poles.size()!=weights.size())
+            throw std::length_error("merge_weights: poles and weights must have the same length.");
         std::vector<std::array<T, dim + 1>> p(poles.size());
         std::transform(
             GBS_PAR_EXEC
-- 
2.43.0


From 2f0776fb870b2527054044116d12b8998be58503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 03/28] fix: rethrow failures of parallel element functions to
 the caller

An exception escaping an element function of a parallel standard algorithm
calls std::terminate: documented errors (a curve that does not touch the
network, a parameter outside the bounds, a failing minimisation) ended the
process instead of reaching the caller.
---
 gbs-mesh/tfi.h    |  6 ++--
 gbs/bscanalysis.h |  9 ++----
 gbs/bssbuild.h    | 15 +++------
 gbs/execution.h   | 82 +++++++++++++++++++++++++++++++++++++++++++++--
 gbs/extrema.h     | 36 ++++++++++-----------
 5 files changed, 107 insertions(+), 41 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index e429696..e67feef 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -612,8 +612,7 @@ namespace gbs
         points_vector<T, dim> pts(ni_ * nj_);
         auto i_range = make_range<size_t>(0, ni_ - 1);
 
-        std::for_each(
-            GBS_PAR_EXEC
+        for_each_par(
             i_range.begin(), i_range.end(),
             [&](size_t i_)
             {
@@ -659,8 +658,7 @@ namespace gbs
     template <typename T, size_t dim>
     void project_points_on_surface(const Surface<T,dim> &srf, points_vector<T, dim> &pts, T tol_projection =1e-6 )
     {
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             pts.begin(),
             pts.end(),
             pts.begin(),
diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 15c73a6..e59f014 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -144,8 +144,7 @@ namespace gbs
         u = make_range(point<T, 1>{u1}, point<T, 1>{u2}, n);
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_,const auto &u2_) {
                 return length<T, dim, N>(crv, u1_[0], u2_[0]);
@@ -208,8 +207,7 @@ namespace gbs
         }
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_, const auto &u2_) {
                 return length<T, dim, N>(crv, u1_, u2_);
@@ -506,8 +504,7 @@ namespace gbs
     {
         points_vector<T,dim> points(u_lst.size());
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u_lst.begin(),u_lst.end(),points.begin(),
             [d,&crv](T u_){return crv(u_,d);}
         );
diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1a57cbe..4c1e37e 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -28,8 +28,7 @@ namespace gbs
     {
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim>,BSCurve<T, dim>>::type;
         std::list<bs_type> bs_lst_cpy(bs_lst.size());
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             bs_lst.begin(),
             bs_lst.end(),
             bs_lst_cpy.begin(),
@@ -146,8 +145,7 @@ namespace gbs
         std::vector< points_vector<T,dim + rational> > tg_v_lst{ poles_v_lst.size() };
         // compute positions on spine
         std::vector<T> v_spine(bs_lst_cpy.size());
-        std::transform(
-                GBS_PAR_EXEC
+        transform_par(
                 bs_lst_cpy.begin(),
                 bs_lst_cpy.end(),
                 v_spine.begin(),
@@ -158,8 +156,7 @@ namespace gbs
         );
         // compute spine distances (model space — the spine is non-rational)
         std::vector<T> d(v_spine.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             std::next(v_spine.begin()),
             v_spine.end(),
             v_spine.begin(),
@@ -170,8 +167,7 @@ namespace gbs
         // compute spine tangents in MODEL space (dim components); they are lifted
         // into homogeneous pole space per-pole below (weight depends on the pole).
         std::vector<std::array<T,dim>> D(v_spine.size());
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             v_spine.begin(),
             v_spine.end(),
             D.begin(),
@@ -494,8 +490,7 @@ namespace gbs
             return u_;
         };
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             first_curve, last_curve,
             u.begin(),
             f_intersection
diff --git a/gbs/execution.h b/gbs/execution.h
index 68b5a5a..21f387a 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -9,7 +9,8 @@
 #include <cstddef>    // std::size_t
 #include <vector>     // std::vector (build_batch output)
 #include <type_traits> // std::decay_t (build_batch result type)
-#include <exception>  // std::exception_ptr (build_batch error propagation)
+#include <exception>  // std::exception_ptr (error propagation out of parallel regions)
+#include <mutex>      // std::mutex (first error of a parallel region)
 
 #include "gbsconstants.h"  // gbs::parallel_min_size
 
@@ -44,6 +45,81 @@ namespace gbs
     inline constexpr sequenced_execution_policy seq_exec{};
 #endif
 
+    // -------------------------------------------------------------------------
+    // Parallel transform / for_each that let the caller catch element failures.
+    // -------------------------------------------------------------------------
+    // An exception escaping an element function of a parallel algorithm calls
+    // std::terminate per the standard. These wrappers trap it inside the element
+    // function, keep the first one, and RETHROW it after the parallel region, so
+    // a failure is catchable as it is in a serial run.
+
+    /// Keeps the first exception raised by the element functions of a parallel run.
+    class parallel_error
+    {
+        std::mutex m_mutex;
+        std::exception_ptr m_error;
+    public:
+        /// To be called from a catch block.
+        void capture() noexcept
+        {
+            std::lock_guard<std::mutex> lock(m_mutex);
+            if (!m_error) m_error = std::current_exception();
+        }
+        /// To be called once the parallel region is over.
+        void rethrow() const
+        {
+            if (m_error) std::rethrow_exception(m_error);
+        }
+    };
+
+    /// Parallel unary std::transform, failures are rethrown to the caller.
+    template <class InputIt, class OutputIt, class UnaryOp>
+    OutputIt transform_par(InputIt first, InputIt last, OutputIt out, UnaryOp op)
+    {
+        using Result = std::decay_t<decltype(op(*first))>;
+        parallel_error error;
+        auto end = std::transform(GBS_PAR_EXEC first, last, out,
+            [&op, &error](const auto &x) -> Result
+            {
+                try { return op(x); }
+                catch (...) { error.capture(); }
+                return Result{};
+            });
+        error.rethrow();
+        return end;
+    }
+
+    /// Parallel binary std::transform, failures are rethrown to the caller.
+    template <class InputIt1, class InputIt2, class OutputIt, class BinaryOp>
+    OutputIt transform_par(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
+    {
+        using Result = std::decay_t<decltype(op(*first1, *first2))>;
+        parallel_error error;
+        auto end = std::transform(GBS_PAR_EXEC first1, last1, first2, out,
+            [&op, &error](const auto &x1, const auto &x2) -> Result
+            {
+                try { return op(x1, x2); }
+                catch (...) { error.capture(); }
+                return Result{};
+            });
+        error.rethrow();
+        return end;
+    }
+
+    /// Parallel std::for_each, failures are rethrown to the caller.
+    template <class InputIt, class Function>
+    void for_each_par(InputIt first, InputIt last, Function f)
+    {
+        parallel_error error;
+        std::for_each(GBS_PAR_EXEC first, last,
+            [&f, &error](auto &&x)
+            {
+                try { f(x); }
+                catch (...) { error.capture(); }
+            });
+        error.rethrow();
+    }
+
     // -------------------------------------------------------------------------
     // Size-gated parallel transform — the shared helper for bulk evaluators.
     // -------------------------------------------------------------------------
@@ -69,7 +145,7 @@ namespace gbs
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first, last)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first, last, out, op);
+            return transform_par(first, last, out, op);
         return std::transform(first, last, out, op);
     }
 
@@ -78,7 +154,7 @@ namespace gbs
     OutputIt transform_threshold(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first1, last1)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first1, last1, first2, out, op);
+            return transform_par(first1, last1, first2, out, op);
         return std::transform(first1, last1, first2, out, op);
     }
 
diff --git a/gbs/extrema.h b/gbs/extrema.h
index 02d30d0..965adaf 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -71,10 +71,11 @@ namespace gbs
     auto extrema_curve_point(const Curve<T, dim> &crv, const std::array<T, dim> &pnt,T tol_u,nlopt::algorithm solver=default_nlopt_algo,size_t n_bracket=30) -> std::array<T,2>
     {
         auto u = make_range<T>(crv.bounds(),n_bracket);
-        auto comp = [&](auto u1, auto u2){
-            return sq_norm(pnt-crv(u1)) < sq_norm(pnt-crv(u2));
-        };
-        auto u0 = *std::min_element(GBS_PAR_EXEC u.begin(), u.end(), comp);
+        std::vector<T> d(u.size());
+        transform_par(u.begin(), u.end(), d.begin(), [&](const auto &u_){
+            return sq_norm(pnt-crv(u_));
+        });
+        auto u0 = *std::next(u.begin(), std::distance(d.begin(), std::min_element(d.begin(), d.end())));
         return extrema_curve_point(crv, pnt, u0,tol_u,solver);
     }
     /** Project point on surface
@@ -137,12 +138,12 @@ namespace gbs
     auto extrema_surf_pnt(const Surface<T, dim> &srf, const std::array<T, dim> &pnt, T tol_x, nlopt::algorithm solver=default_nlopt_algo, size_t n_bracket_u = 30, size_t n_bracket_v = 30)
     {
         auto uv = make_range<T>(srf.bounds(), n_bracket_u , n_bracket_v);
-        auto comp = [&](auto uv1, auto uv2){
-            auto [u1, v1] = uv1;
-            auto [u2, v2] = uv2;
-            return sq_norm(pnt-srf(u1,v1)) < sq_norm(pnt-srf(u2,v2));
-        };
-        auto [u0, v0 ] = *std::min_element(GBS_PAR_EXEC uv.begin(), uv.end(), comp);
+        std::vector<T> d(uv.size());
+        transform_par(uv.begin(), uv.end(), d.begin(), [&](const auto &uv_){
+            auto [u, v] = uv_;
+            return sq_norm(pnt-srf(u,v));
+        });
+        auto [u0, v0 ] = *std::next(uv.begin(), std::distance(d.begin(), std::min_element(d.begin(), d.end())));
         return extrema_surf_pnt(srf, pnt, u0, v0, tol_x, solver);
     }
 
@@ -238,8 +239,7 @@ namespace gbs
     {
         auto n = std::distance(first, last);
         std::vector<std::array<T,3>> intersection_info(n);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             first, last,
             intersection_info.begin(),
             [&crv,tol_x](const auto &crv_){
@@ -285,12 +285,12 @@ namespace gbs
     auto extrema_surf_curve(const Surface<T, dim> &srf, const Curve<T, dim> &crv, T tol_x, nlopt::algorithm solver=default_nlopt_algo, size_t n_bracket_u = 30, size_t n_bracket_v = 30, size_t n_bracket_w = 30) 
     {
         auto uvw = make_range( srf.bounds(), crv.bounds(), n_bracket_u, n_bracket_v, n_bracket_w );
-        auto comp = [&](auto uvw1, auto uvw2){
-            auto [u1, v1, w1] = uvw1;
-            auto [u2, v2, w2] = uvw2;
-            return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
-        };
-        auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
+        std::vector<T> d(uvw.size());
+        transform_par(uvw.begin(), uvw.end(), d.begin(), [&](const auto &uvw_){
+            auto [u, v, w] = uvw_;
+            return sq_norm(srf(u, v)-crv(w));
+        });
+        auto [u0, v0, w0 ] = *std::next(uvw.begin(), std::distance(d.begin(), std::min_element(d.begin(), d.end())));
         return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
     }
 
-- 
2.43.0


From ca92792a9f4bb0804bd67f0436319cf60a5494a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:42 +0000
Subject: [PATCH 04/28] fix: getTriangle2dMeshAreaPar sums the areas in order

A parallel reduction of floating-point areas gave values that differ in the
last digits from run to run on the same mesh.
---
 inc/topology/halfEdgeMeshQuality.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/inc/topology/halfEdgeMeshQuality.h b/inc/topology/halfEdgeMeshQuality.h
index d25b4ab..51e7e92 100644
--- a/inc/topology/halfEdgeMeshQuality.h
+++ b/inc/topology/halfEdgeMeshQuality.h
@@ -4,6 +4,8 @@
 #include "halfEdgeMeshData.h"
 #include <gbs/execution.h>
 #include <algorithm>
+#include <numeric>
+#include <vector>
 namespace gbs
 {
 /**
@@ -72,15 +74,17 @@ namespace gbs
  */
     auto getTriangle2dMeshAreaPar(const auto &faces_lst)
     {
-        return std::reduce(
-            GBS_PAR_EXEC
+        // areas in parallel, sum in order: the result does not depend on the schedule
+        std::vector<decltype(sum_area(0., *faces_lst.begin()))> areas(faces_lst.size());
+        transform_par(
             faces_lst.begin(),faces_lst.end(),
-            0.,
-            [](auto a1, auto a2)
+            areas.begin(),
+            [](const auto &h_face)
             {
-                return sum_area(a1, a2);
+                return sum_area(0., h_face);
             }
         );
+        return std::accumulate(areas.begin(), areas.end(), 0.);
     }
     template <typename T, size_t dim>
     struct DistanceMeshSurface
-- 
2.43.0


From e63e0265ab78fcbed039025d7b2e89f5c831c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 05/28] fix: scaled_weights applies the mean weight it is given

---
 gbs/basisfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index 90b9d1b..4226d0c 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -1071,7 +1071,7 @@
     auto scaled_weights(const std::vector<std::array<T, dim>> &poles, T mean_value = T(1.0)) -> std::vector<std::array<T, dim>>
     {
         std::vector<std::array<T, dim>> new_poles(poles);
-        scale_weights(new_poles);
+        scale_weights(new_poles, mean_value);
         return new_poles;
     }
     /**
-- 
2.43.0


From 5346c260d58cef2b90133e002cd73be350bc6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 06/28] fix: extrema_curve_curve_lst applies the solver and
 bracket counts it is given

---
 gbs/extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 965adaf..4e0d348 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -242,8 +242,8 @@ namespace gbs
         transform_par(
             first, last,
             intersection_info.begin(),
-            [&crv,tol_x](const auto &crv_){
-                return extrema_curve_curve(crv, *crv_, tol_x);
+            [&crv,tol_x,solver,n_bracket_u,n_bracket_v](const auto &crv_){
+                return extrema_curve_curve(crv, *crv_, tol_x, solver, n_bracket_u, n_bracket_v);
             }
         );
         return intersection_info;
-- 
2.43.0


From 08d192b60dae2db787c7fb69dbaa5e229d99472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 07/28] fix: make_opposite builds the opposite edge on the
 vertex it is given

---
 inc/topology/halfEdgeMeshEditors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index b9acf5e..996c483 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -172,7 +172,7 @@ namespace gbs
     template <std::floating_point T, size_t dim>
     auto make_opposite(const std::shared_ptr<HalfEdgeVertex<T, dim>> &vertex, const std::shared_ptr<HalfEdge<T, dim>> &edge)
     {
-        auto opposite = make_shared_h_edge(edge->previous->vertex);
+        auto opposite = make_shared_h_edge(vertex);
         opposite->opposite = edge;
         edge->opposite = opposite;
         return opposite;
-- 
2.43.0


From 5eed13a81431075cf1861c13d2204c80ba5d8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 08/28] fix: approx between u1 and u2 samples the curve between
 u1 and u2 only

---
 gbs/bscapprox.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5c35a6d..aa876fb 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -465,9 +465,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const Curve<T,dim> &crv, T u1, T u2, T deviation,T tol, size_t p, size_t np = approx_sample_count) -> BSCurve<T, dim>
     {
-        // NB: u1/u2 are currently not applied (the whole curve is sampled), matching
-        // the pre-existing behaviour; left as-is to keep this a pure refactor.
-        auto [pts, u] = sample_by_deviation(crv, np, deviation);
+        auto u_lst = deviation_based_params<T, dim>(crv, u1, u2, np, deviation);
+        auto pts = make_points(crv, u_lst);
+        std::vector<T> u{std::begin(u_lst), std::end(u_lst)};
         return refine_from_points(pts, u, p, default_n_poles(p), tol);
     }
 
-- 
2.43.0


From 0c707cd5e2889f20c5512e90edeb06e48cc422b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 09/28] fix: closest_curve and closest_p_curve compile and
 deliver failures to the caller

---
 gbs/bscanalysis.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index e59f014..f1d99d4 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -654,13 +654,14 @@ namespace gbs
     template <typename T, size_t dim>
     auto closest_curve(const point<T, dim> pt, const auto &curve_begin, const auto &curve_end, T tol = extrema_tol<T>)
     {
-        return std::min_element(
-            GBS_PAR_EXEC
-            curve_begin, curve_end,
-            [&pt, tol](const auto &c1, const auto &c2)
+        std::vector<T> d(std::distance(curve_begin, curve_end));
+        transform_par(
+            curve_begin, curve_end, d.begin(),
+            [&pt, tol](const auto &c)
             {
-                return extrema_curve_point(c1, pt, c1.midPoint(), tol)[1] < extrema_curve_point(c2, pt, c2.midPoint(), tol)[1];
+                return extrema_curve_point(c, pt, c.midPosition(), tol)[1];
             });
+        return std::next(curve_begin, std::distance(d.begin(), std::min_element(d.begin(), d.end())));
     }
 /**
  * @brief  find the closest curve's pointer to point
@@ -676,13 +677,14 @@ namespace gbs
     template <typename T, size_t dim>
     auto closest_p_curve(const point<T, dim> pt, const auto &curve_begin, const auto &curve_end, T tol = extrema_tol<T>)
     {
-        return std::min_element(
-            GBS_PAR_EXEC
-            curve_begin, curve_end,
-            [&pt, tol](const auto &c1, const auto &c2)
+        std::vector<T> d(std::distance(curve_begin, curve_end));
+        transform_par(
+            curve_begin, curve_end, d.begin(),
+            [&pt, tol](const auto &c)
             {
-                return extrema_curve_point(*c1, pt, c1->midPoint(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPoint(), tol)[1];
+                return extrema_curve_point(*c, pt, c->midPosition(), tol)[1];
             });
+        return std::next(curve_begin, std::distance(d.begin(), std::min_element(d.begin(), d.end())));
     }
 
     template <typename T, size_t dim>
-- 
2.43.0


From 120eb950e2c2822f713f393a9f3c2e9c96a85f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 10/28] fix: translated of a weighted point returns a weighted
 point

---
 gbs/transformpoints.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index a24845f..877ed6b 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -48,10 +48,10 @@ namespace gbs
     }
 
     template <typename T, size_t dim>
-    auto translated(const std::array<T, dim + 1> &x, const std::array<T, dim> &v) -> std::array<T, dim>
+    auto translated(const std::array<T, dim + 1> &x, const std::array<T, dim> &v) -> std::array<T, dim + 1>
     {
         std::array<T, dim + 1> res{x};
-        translate(res, v);
+        translate<T, dim>(res, v);
         return res;
     }
 
-- 
2.43.0


From 7cdddc293c80cd83d54da3ab547afbb2564410bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 11/28] fix: edge_direction compiles and goes from the previous
 vertex to the edge's vertex

---
 inc/topology/halfEdgeMeshGetters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 9b82670..9660d3f 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -662,7 +662,7 @@ namespace gbs
     {
         assert(he->previous && he->previous->vertex);
 
-        return  normalized( he->vertex->coords - he->vertex->coords->previous);
+        return  normalized( he->vertex->coords - he->previous->vertex->coords);
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From b97622c5835b9017dbc84006089cff09e4661743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 12/28] fix: Wire::close compiles and joins the last vertex to
 the first

---
 inc/topology/wire.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index 8843379..ad6993c 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -231,8 +231,8 @@ namespace gbs
     void Wire<T, dim>::close()
     {
         addEdge(Edge<T, dim>{
-            end()->vertex2(),
-            begin()->vertex1()});
+            vertex2(),
+            vertex1()});
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From b18819b5abb9b5bb1ecde6ebd9e0a5b363fea13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 13/28] fix: transformation of a general bspline by a matrix
 compiles

---
 gbs/transform.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/gbs/transform.h b/gbs/transform.h
index fcb60bd..e74f0b5 100644
--- a/gbs/transform.h
+++ b/gbs/transform.h
@@ -70,17 +70,37 @@ namespace gbs
         crv.movePoles(poles_w);
     }
 
+    /// transform the poles of any bspline curve or surface
+    template <typename T, size_t dim, bool rational>
+    auto transform_poles(auto &geo, auto trf) -> void
+    {
+        auto poles = geo.poles();
+        if constexpr (rational)
+        {
+            std::vector<std::array<T, dim>> pts;
+            std::vector<T> weights;
+            separate_weights(poles, pts, weights);
+            std::transform(pts.begin(), pts.end(), pts.begin(), trf);
+            poles = add_weights_coord(pts, weights);
+        }
+        else
+        {
+            std::transform(poles.begin(), poles.end(), poles.begin(), trf);
+        }
+        geo.movePoles(poles);
+    }
+
     template <typename T,bool rational>
     auto transform(BSCurveGeneral<T, 3,rational> &crv, const Matrix4<T> &M) -> void
     {
-        auto trf = [&M](const auto &pt){return transform<T>(pt,M);};
-        transform(crv,trf);
+        auto trf = [&M](const auto &pt){return transformed<T>(pt,M);};
+        transform_poles<T, 3, rational>(crv,trf);
     }
     template <typename T,bool rational>
     auto transform(BSSurfaceGeneral<T, 3,rational> &crv, const Matrix4<T> &M) -> void
     {
-        auto trf = [&M](const auto &pt){return transform<T>(pt,M);};
-        transform(crv,trf);
+        auto trf = [&M](const auto &pt){return transformed<T>(pt,M);};
+        transform_poles<T, 3, rational>(crv,trf);
     }
 
     // template <typename G>
-- 
2.43.0


From 26a4bff78616b6337d8107bbdadce85e13a15afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:45 +0000
Subject: [PATCH 14/28] fix: evaluation with scalar poles compiles

---
 gbs/basisfunctions.ixx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index 4226d0c..a2ebf46 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -653,8 +653,11 @@
     {
         T pt{};
         size_t n = poles.size();
-        size_t i_max, i_min;
-        eval_index_span(n, p, u, k, d, use_span_reduction, i_min, i_max);
+        size_t i_max{n - 1}, i_min{0};
+        if (use_span_reduction)
+        {
+            std::tie(i_min, i_max) = find_span_range(n, p, u, k);
+        }
 
         for (auto i = i_min; i <= i_max; i++)
         {
-- 
2.43.0


From 707baf14f6342e49dcfdf5b131feb872524adbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:45 +0000
Subject: [PATCH 15/28] fix: eval_value_par compiles and sums in order

---
 gbs/basisfunctions.ixx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index a2ebf46..33e7483 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -708,10 +708,14 @@
 
         // // return point<T,dim>{};        
         
-        return std::reduce(
-            GBS_PAR_EXEC
+        return std::accumulate(
             poles_in_span.cbegin(),
-            poles_in_span.cend()
+            poles_in_span.cend(),
+            pt,
+            [](const auto &p1, const auto &p2)
+            {
+                return p1 + p2;
+            }
         );
 
         // // auto indexes = make_range(i_min,i_max);
-- 
2.43.0


From 53f41f2ac58acc9af2420b32457a0a81c45fa93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:33 +0000
Subject: [PATCH 16/28] fix: increaseDegreeU and increaseDegreeV leave the
 surface as it was when they fail

---
 gbs/bssurf.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..6db233b 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -866,21 +866,17 @@ namespace gbs
         {
             points_vector<T, dim+rational> poles_new;
             std::vector<T> ku_new;
-            std::vector<T> ku_old{m_knotsFlatsU};
             auto nv = nPolesV();
             auto nu = nPolesU();
             for (size_t i{}; i < nv; i++)
             {
 
                 points_vector<T, dim+rational> poles{std::next(m_poles.begin(), i * nu), std::next(m_poles.begin(), i * nu + nu)};
-                if (i != 0)
-                {
-                    m_knotsFlatsU = {ku_old};
-                }
-                increase_degree(m_knotsFlatsU, poles, m_degU, 1);
+                std::vector<T> ku{m_knotsFlatsU};
+                increase_degree(ku, poles, m_degU, 1);
                 if (i == 0)
                 {
-                    ku_new = std::move(m_knotsFlatsU);
+                    ku_new = std::move(ku);
                 }
                 poles_new.insert(poles_new.end(), poles.begin(), poles.end());
             }
@@ -897,7 +893,15 @@ namespace gbs
         auto increaseDegreeV() -> void
         {
             invertUV();
-            increaseDegreeU();
+            try
+            {
+                increaseDegreeU();
+            }
+            catch (...)
+            {
+                invertUV(); // back to the previous state
+                throw;
+            }
             invertUV();
         }
  
-- 
2.43.0


From de7506f5954266763d71b7df057a5cbfa930f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 17/28] fix: spline constructors reject empty and wrapping knot
 counts and take the bounds from the flat knots

---
 gbs/bscurve.h | 16 +++++++++++++---
 gbs/bssurf.h  |  3 ++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..b881aaa 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -201,6 +201,13 @@ namespace gbs
     auto check_curve(size_t np, const std::vector<T> &knots, size_t p)
     {
         bool ok = true;
+        // Before anything else: no knot to look at, or counts that wrap around.
+        if (p >= knots.size() || knots.size() < 2 * (p + 1))
+        {
+            std::cerr << "check_curve: a degree-" << p << " B-spline needs at least 2 * (degree + 1) knots (got "
+                      << knots.size() << ")\n";
+            return false;
+        }
         std::vector<size_t> m;
         std::vector<T> k;
         unflat_knots(knots,m,k);
@@ -273,9 +280,10 @@ namespace gbs
                        size_t p) : m_poles(poles),
                                      m_deg(p),
                                      m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_bounds{}
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object, rational definition
@@ -293,9 +301,10 @@ namespace gbs
                        size_t p) : m_poles(merge_weights(poles, weights)),
                                      m_deg(p),
                                      m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_bounds{}
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object
@@ -309,9 +318,10 @@ namespace gbs
                        size_t p) : m_poles(poles),
                                      m_knotsFlats(knots_flats),
                                      m_deg(p),
-                                     m_bounds{knots_flats.front(),knots_flats.back()}
+                                     m_bounds{}
         {
             if(!check_curve(m_poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(), m_knotsFlats.back()};
         }
         auto isRational() -> bool
         {
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 6db233b..4438ef7 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -427,7 +427,7 @@ namespace gbs
                                         m_knotsFlatsV(knots_flatsV),
                                         m_degU(degU),
                                         m_degV(degV),
-                                        m_bounds{knots_flatsU.front(), knots_flatsU.back(), knots_flatsV.front(), knots_flatsV.back()}
+                                        m_bounds{}
         //,
         //   m_rational(false)
 
@@ -438,6 +438,7 @@ namespace gbs
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsU/degreeU combination");
             if (!check_curve(nPolesV(), m_knotsFlatsV, degV))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsV/degreeV combination");
+            m_bounds = {m_knotsFlatsU.front(), m_knotsFlatsU.back(), m_knotsFlatsV.front(), m_knotsFlatsV.back()};
         }
 
         BSSurfaceGeneral(const std::vector<std::array<T, dim + rational>> &poles,
-- 
2.43.0


From eb0141234f6afe3f0b97fd13c118d7421178342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 18/28] fix: interpolation with parameters rejects unequal
 counts, a degree too high and an empty grid

---
 gbs/bscinterp.h |  3 ++-
 gbs/bssinterp.h | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..f418594 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -599,6 +599,8 @@ auto interpolate(const std::vector<constrType<T, dim, nc>> &Q, KnotsCalcMode mod
 template <typename T, size_t dim>
 auto interpolate(const std::vector<constrType<T, dim, 1>> &Q,const std::vector<T> &u, size_t p) -> BSCurve<T, dim>
 { 
+    if(Q.size()!=u.size()) throw std::length_error("Points and parameters numbers must be equal");
+    if(p>=Q.size()) throw std::domain_error("Degree must be strictly inferior to points number");
     auto k_flat = build_simple_mult_flat_knots<T>(u,p);
     auto poles = build_poles<T,dim,1>(Q, k_flat, u, p);
     return BSCurve<T,dim>(poles, k_flat, p);
@@ -646,7 +648,6 @@ auto interpolate(const points_vector<T,dim> &Q,const std::vector<T> &u, size_t p
 template <typename T>
 auto interpolate(const std::vector<T> &Q,const std::vector<T> &u, size_t p) -> BSCfunction<T>
 { 
-    auto k_flat = build_simple_mult_flat_knots<T>(u,p);
     std::vector<constrType<T, 1, 1>> Q_(Q.size());
     std::transform(Q.begin(),Q.end(),Q_.begin(),[](const auto &v_){return constrType<T, 1, 1>{{v_}};});
     return BSCfunction<T>{ interpolate<T,1>(Q_,u,p) };
diff --git a/gbs/bssinterp.h b/gbs/bssinterp.h
index 3e5b723..4f88098 100644
--- a/gbs/bssinterp.h
+++ b/gbs/bssinterp.h
@@ -183,12 +183,16 @@ namespace gbs
     auto interpolate(const std::vector<std::array<T, dim>> &Q, size_t n_poles_v, size_t p, size_t q, KnotsCalcMode mode) -> BSSurface<T, dim>
     {
 
-        if (Q.size() % n_poles_v)
+        if (n_poles_v == 0 || Q.size() % n_poles_v)
         {
             throw std::length_error("size error");
         }
 
         size_t n_poles_u = Q.size() / n_poles_v;
+        if (p >= n_poles_u || q >= n_poles_v)
+        {
+            throw std::domain_error("Degree must be strictly inferior to points number");
+        }
 
         auto avg_p = [&](auto extract_f, size_t ni, size_t nj) mutable {
             
@@ -326,17 +330,21 @@ namespace gbs
         auto [u1, u2, v1, v2] = bounds;
         auto [mu, mv        ] = mults;
 
+        if( n_polesv == 0 || Q.size() % n_polesv !=0)
+        {
+            throw std::length_error("interpolate, Q.size() = n_polesv * n_polesu required");
+        }
+        auto n_polesu = Q.size() / n_polesv;
+        if( p >= n_polesu || q >= n_polesv || mu == 0 || mv == 0 )
+        {
+            throw std::invalid_argument("interpolate, degree inferior to poles number and non null multiplicity required");
+        }
         auto [u_min, u_max, v_min, v_max] = get_constraints_bounds(Q);
         if(u_min < u1 || u_max > u2 || v_min < v1 || v_max > v2)
         {
             throw std::invalid_argument("constains must be specified within bounds");
         }
 
-        if( Q.size() % n_polesv !=0)
-        {
-            throw std::length_error("interpolate, Q.size() = n_polesv * n_polesu required");
-        }
-        auto n_polesu = Q.size() / n_polesv;
         auto ku = build_mult_flat_knots<T>(u1, u2, 2 + (n_polesu-p-1)/mu, p, mu);
         auto kv = build_mult_flat_knots<T>(v1, v2, 2 + (n_polesv-q-1)/mv, q, mv);
         if(ku.size() - p - 1 != n_polesu)
-- 
2.43.0


From f08593cd9bd7994e94fa63b36c77f6ee334a3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:33 +0000
Subject: [PATCH 19/28] fix: interpolation and knot construction from too few
 points are rejected

---
 gbs/bscinterp.h        | 1 +
 gbs/knotsfunctions.ixx | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index f418594..540f7f3 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -535,6 +535,7 @@ template <typename T, size_t dim, size_t nc>
 auto interpolate(const std::vector<constrType<T, dim, nc>> &Q, const std::vector<T> &u, bool add_computed=false)->BSCurve<T,dim>
 {
 
+    if(Q.size()<2) throw std::length_error("At least 2 points required");
     auto build_crv = [&u](size_t nc_, const auto &Q)
     {
         size_t p = 2 * nc_ - 1;
diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..3e43cfd 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -260,6 +260,7 @@
     template <typename T> 
     auto build_mult_flat_knots(const std::vector<T> &k, size_t p, size_t mult) -> std::vector<T>
     {
+        if(k.size()<2) throw std::length_error("At least 2 knots required");
         std::vector<size_t> m(k.size());
         m.front()=p+1;
         std::fill(++m.begin(),--m.end(),mult);
@@ -307,6 +308,7 @@
     auto curve_parametrization( const std::vector<std::array<T,dim> > &pts, KnotsCalcMode mode, bool adimensionnal =false ) -> std::vector<T>
     {
 
+        if(pts.empty()) throw std::length_error("At least 1 point required");
         std::vector<T> k(pts.size());
         k[0] = 0.;
         switch (mode)
-- 
2.43.0


From bb567ec433adc83c34ac122adc375ea8c3949372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 20/28] fix: reading JSON whose content does not fit throws
 instead of reading through the wrong kind of value

---
 gbs-io/fromjson.h | 9 +++++++++
 gbs-io/tojson.h   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index ae2e737..47627db 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -3,6 +3,11 @@
 #include <fstream>
 #include <sstream>
 #include <string>
+// Accesses that do not fit the document are rejected by an exception (must precede rapidjson headers).
+#ifndef RAPIDJSON_ASSERT
+#include <stdexcept>
+#define RAPIDJSON_ASSERT(x) do { if (!(x)) throw std::invalid_argument("invalid JSON content: " #x); } while (false)
+#endif
 #include <rapidjson/rapidjson.h>
 #include <rapidjson/document.h>
 #include <gbs/execution.h>
@@ -503,5 +508,9 @@ namespace gbs
         }
 
         document.Parse(str.data());
+        if(document.HasParseError())
+        {
+            throw std::runtime_error("Invalid JSON file: " + std::string(fname));
+        }
     }
 }
\ No newline at end of file
diff --git a/gbs-io/tojson.h b/gbs-io/tojson.h
index f81d4a6..428d641 100644
--- a/gbs-io/tojson.h
+++ b/gbs-io/tojson.h
@@ -1,4 +1,9 @@
 #pragma once
+// Accesses that do not fit the document are rejected by an exception (must precede rapidjson headers).
+#ifndef RAPIDJSON_ASSERT
+#include <stdexcept>
+#define RAPIDJSON_ASSERT(x) do { if (!(x)) throw std::invalid_argument("invalid JSON content: " #x); } while (false)
+#endif
 #include <rapidjson/rapidjson.h>
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
-- 
2.43.0


From dbcc5decbe70f095e0b53246ec20f9ef804fb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 21/28] fix: abs_curv_adaptive_discretzation inserted into a
 vector it was iterating over

---
 gbs/bscanalysis.h | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index f1d99d4..c76d7f9 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -182,28 +182,31 @@ namespace gbs
 
         u = make_range(u1, u2, n);
 
-        // Adaptive refinement based on local curvature
+        // Adaptive refinement based on local curvature: each pass halves the
+        // intervals that need it, so that the number of passes is bounded by the
+        // number of digits of T
         bool inserted = true;
-        while (inserted)
+        for (int pass{}; inserted && pass < std::numeric_limits<T>::digits; ++pass)
         {
             inserted = false;
-            auto it_u1 = u.begin();
-            auto it_u3 = std::next(it_u1);
-            while (it_u3 != u.end())
+            std::vector<T> refined;
+            refined.reserve(2 * u.size());
+            for (size_t i{}; i + 1 < u.size(); ++i)
             {
-                T mid_u = 0.5 * ((*it_u1) + (*it_u3));
-                T l12 = length<T, dim, N>(crv, (*it_u1), mid_u);
-                T l23 = length<T, dim, N>(crv, mid_u, (*it_u3));
-                T l13 = length<T, dim, N>(crv, (*it_u1), (*it_u3));
+                refined.push_back(u[i]);
+                T mid_u = 0.5 * (u[i] + u[i + 1]);
+                T l12 = length<T, dim, N>(crv, u[i], mid_u);
+                T l23 = length<T, dim, N>(crv, mid_u, u[i + 1]);
+                T l13 = length<T, dim, N>(crv, u[i], u[i + 1]);
                 T curv_diff = std::abs( l12 + l23 - l13) / l13;
-                if (curv_diff > tolerance)
+                if (curv_diff > tolerance && std::abs(u[i + 1] - u[i]) > knot_eps<T>)
                 {
                     inserted = true;
-                    u.insert(it_u3, mid_u);
+                    refined.push_back(mid_u);
                 }
-                it_u1 = it_u3;
-                it_u3 = std::next(it_u1);
             }
+            refined.push_back(u.back());
+            u = std::move(refined);
         }
 
         std::vector<T> dm(u.size() - 1);
-- 
2.43.0


From f2eddd5b7fcd394644afb51624f3b4a9cc6382c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 22/28] fix: transpose_poles by blocks never ended for a block
 size of zero

---
 gbs/polestools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gbs/polestools.h b/gbs/polestools.h
index e97561c..2596e98 100644
--- a/gbs/polestools.h
+++ b/gbs/polestools.h
@@ -2,6 +2,7 @@
 #include <vector>
 #include <array>
 #include <numeric>
+#include <stdexcept>
 
 
 namespace gbs {
@@ -62,6 +63,7 @@ namespace gbs {
      */
     template <typename T, size_t dim>
     auto transpose_poles(const std::vector<std::vector<std::array<T, dim>>>& poles, size_t blockSize) {
+        if (blockSize == 0) throw std::invalid_argument("transpose_poles: null block size.");
 
         size_t nu = poles.size();
         size_t nv = poles[0].size();
-- 
2.43.0


From 17c81d0f0c34ab46637d7b2fa3e8339715f8e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 23/28] fix: bezier_segments ran past the poles of a curve with
 a discontinuity

---
 gbs/knotsfunctions.ixx | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 3e43cfd..70a47dc 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -850,27 +850,18 @@
         {
             auto [U, M] = knots_and_mults(k);
             
-            assert(poles.size() == p * (U.size() - 1)+1); // sanity check: the number of poles should match the number of segments
+            // sanity check: the number of poles should match the number of segments
+            if (poles.size() != p * (U.size() - 1) + 1)
+                throw std::invalid_argument("bezier_segments: the curve has not the continuity of Bezier segments.");
 
-            auto step = p+1;
-            auto itp{poles.begin()};
-            auto itu{U.begin()};
-            auto itp_ {itp};
-            auto itu_ {itu};
-            
-            // iterate through each segment
-            while (itp_ != poles.end())
+            // iterate through each segment, neighbours share a pole
+            for (size_t s{}; s + 1 < U.size(); s++)
             {
-                itp_ = next(itp, step); // advance step positions
-                itu_ = next(itu); // advance one position
-
-                std::vector<std::array<T, dim>> poles_bezier{itp, itp_}; // extract the control points for the current Bezier segment
+                auto itp{std::next(poles.begin(), s * p)};
+                std::vector<std::array<T, dim>> poles_bezier{itp, std::next(itp, p + 1)}; // extract the control points for the current Bezier segment
 
                 // append the current segment (control points and parameter range) to the output list
-                bezier_seg.push_back(std::make_pair(poles_bezier, std::make_pair(*itu, *itu_)));
-
-                itp=next(itp_,-1); // back up one position
-                itu = itu_;
+                bezier_seg.push_back(std::make_pair(poles_bezier, std::make_pair(U[s], U[s + 1])));
             }
         }
 
-- 
2.43.0


From 67d80008bd5211dab193b4b5d52f9fbc42000119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 24/28] fix: deviation based sampling of a surface refined
 without end for small deviations

---
 gbs/bssanalysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index f089110..9ba051c 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -44,6 +44,8 @@ namespace gbs
     template <typename T, size_t dim>
     void refine_params_u_recursive(const Surface<T, dim> &srf, T v, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u3, std::list<T> &u_lst)
     {
+        if (std::abs(*it_u3 - *it_u1) <= knot_eps<T>)
+            return;
         auto u_ = 0.5 * (*it_u1 + *it_u3);
         auto v1 = srf(u_, v) - srf(*it_u1, v);
         auto v2 = srf(*it_u3, v) - srf(*it_u1, v);
@@ -110,6 +112,8 @@ namespace gbs
     template <typename T, size_t dim>
     void refine_params_v_recursive(const Surface<T, dim> &srf, T u, T dev_max, typename std::list<T>::iterator it_v1, typename std::list<T>::iterator it_v3, std::list<T> &v_lst)
     {
+        if (std::abs(*it_v3 - *it_v1) <= knot_eps<T>)
+            return;
         auto u_ = 0.5 * (*it_v1 + *it_v3);
         auto v1 = srf(u, u_) - srf(u, *it_v1);
         auto v2 = srf(u, *it_v3) - srf(u, *it_v1);
-- 
2.43.0


From 8cb9be2bcde57d577ffa9158c81445027c3e09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 25/28] fix: getEdgePoint and DistanceMeshSurface did not
 compile when used

---
 inc/topology/halfEdgeMeshGetters.h |  4 ++--
 inc/topology/halfEdgeMeshQuality.h | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 9660d3f..a362656 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -609,8 +609,8 @@ namespace gbs
     auto getEdgePoint(const std::shared_ptr<HalfEdge<T,dim>> &he, T pos = 0.5)
     {
         assert(he && he->vertex && he->previous && he->previous->vertex);
-        const auto &p1 = he->previous->vertex->coord;
-        const auto &p2 = he->vertex->coord;
+        const auto &p1 = he->previous->vertex->coords;
+        const auto &p2 = he->vertex->coords;
         return p1 + pos *(p2-p1);
     }
 
diff --git a/inc/topology/halfEdgeMeshQuality.h b/inc/topology/halfEdgeMeshQuality.h
index 51e7e92..4f42679 100644
--- a/inc/topology/halfEdgeMeshQuality.h
+++ b/inc/topology/halfEdgeMeshQuality.h
@@ -99,7 +99,7 @@ namespace gbs
         auto operator()(const std::shared_ptr<HalfEdgeFace<T, 2>> &hf) const
         {
             // Get the face coordinates in UV space
-            auto coordsUV = getFaceCoords(hf);
+            auto coordsUV = getTriangleCoords(hf);
 
             // Get the bounds of the surface in UV space
             auto [u1, u2, v1, v2] = srf.bounds();
@@ -110,12 +110,12 @@ namespace gbs
                 if (u1 > u || u2 < u || v1 > v || v2 < v)
                 {
                     // Return a zero distance and a dummy UV point for out-of-bounds coordinates
-                    return std::make_pair(0., std::array<T, 2>{0., 0.});
+                    return std::make_pair(static_cast<T>(0), std::array<T, 2>{0, 0});
                 }
             }
 
             // Transform the face coordinates from UV space to 3D space
-            std::vector<std::array<T, 3>> coords(coordsUV.size());
+            std::vector<std::array<T, dim>> coords(coordsUV.size());
             std::transform(
                 coordsUV.begin(), coordsUV.end(),
                 coords.begin(),
@@ -125,8 +125,9 @@ namespace gbs
                 });
 
             // Compute the centroid (G) and midpoints (A, B, C) in both UV and 3D space
-            auto G_UV = average(coordsUV.begin(), coordsUV.end());
-            auto G = average(coords.begin(), coords.end());
+            auto midpoint = [](const auto &a, const auto &b) { return static_cast<T>(0.5) * (a + b); };
+            auto G_UV = static_cast<T>(1) / 3 * (coordsUV[0] + coordsUV[1] + coordsUV[2]);
+            auto G = static_cast<T>(1) / 3 * (coords[0] + coords[1] + coords[2]);
             auto A_UV = midpoint(coordsUV[0], coordsUV[1]);
             auto A = midpoint(coords[0], coords[1]);
             auto B_UV = midpoint(coordsUV[1], coordsUV[2]);
-- 
2.43.0


From 628db31ccf80399fba70dcfed62dca44123ba5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 26/28] fix: getVerticesVectorFromFaces returned the vertices
 in the order of their addresses

---
 inc/topology/halfEdgeMeshGetters.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index a362656..31477e9 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -557,12 +557,11 @@ namespace gbs
         auto vertices_map = getVerticesMapFromFaces<T,dim>(faces_lst);
 
         std::vector< std::shared_ptr< HalfEdgeVertex<T,dim> > > vertices(vertices_map.size());
-        std::transform(
-            GBS_PAR_EXEC
-            vertices_map.begin(), vertices_map.end(),
-            vertices.begin(),
-            [](const auto &pair){return pair.first;}
-        );
+        // the map is ordered by address, the result by first appearance
+        for (const auto &[vertex, index] : vertices_map)
+        {
+            vertices[index] = vertex;
+        }
 
         return vertices;
     }
-- 
2.43.0


From cddb8e7eec75e125a08f3057d2db7b9280511c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 27/28] fix: the refined mesh depended on the addresses of its
 edges (order of flips)

---
 inc/topology/tessellations.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index dabf88e..38d61de 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -554,8 +554,14 @@ namespace bw_detail
             // Smooth mesh
             laplacian_smoothing(faces_lst, *vtx);
             // Restore Delaunay condition
-            auto edges = getEdgesMap<T,dim>(faces_lst);
-            for(auto & [ed,i] : edges)
+            auto edges_map = getEdgesMap<T,dim>(faces_lst);
+            // the map is ordered by address, flip by order of appearance in the mesh
+            std::vector<std::shared_ptr<HalfEdge<T,dim>>> edges(edges_map.size());
+            for(const auto & [ed,i] : edges_map)
+            {
+                edges[i] = ed;
+            }
+            for(const auto & ed : edges)
             {
                 if(ed->opposite && !is_locally_delaunay(ed))
                 {
-- 
2.43.0


From bc7ed64f419941fd9cb6357c04f26f2a5e2e7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 28/28] fix: default constructed B-splines had indeterminate
 degree and bounds

---
 gbs/bscurve.h | 4 ++--
 gbs/bssurf.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index b881aaa..79086f7 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -259,10 +259,10 @@ namespace gbs
     template <typename T, size_t dim, bool rational>
     class BSCurveGeneral : public Curve<T,dim>
     {
-        size_t m_deg;
+        size_t m_deg{};
         std::vector<std::array<T, dim + rational>> m_poles;
         std::vector<T> m_knotsFlats;
-        std::array<T,2> m_bounds;
+        std::array<T,2> m_bounds{};
     public:
         BSCurveGeneral() = default ;
         BSCurveGeneral( const BSCurveGeneral<T,dim,rational> &bsc ) = default ;
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 4438ef7..d30a549 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -402,11 +402,11 @@ namespace gbs
     template <typename T, size_t dim, bool rational>
     class BSSurfaceGeneral : public Surface<T, dim>
     {
-        size_t m_degU, m_degV;
+        size_t m_degU{}, m_degV{};
         std::vector<std::array<T, dim + rational>> m_poles;
         std::vector<T> m_knotsFlatsU;
         std::vector<T> m_knotsFlatsV;
-        std::array<T, 4> m_bounds;
+        std::array<T, 4> m_bounds{};
 
     public:
         /**
-- 
2.43.0

