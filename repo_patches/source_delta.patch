From f28884a883257e68d09e173f4be649d19f608fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:58 +0000
Subject: [PATCH 01/96] fix: initialise the instancing flag of scene nodes

Copying a primitive node read the uninitialised bool of its group part.
---
 include/lm/scenenode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/scenenode.h b/include/lm/scenenode.h
index 4c766b5..21e54f2 100644
--- a/include/lm/scenenode.h
+++ b/include/lm/scenenode.h
@@ -87,7 +87,7 @@ struct SceneNode {
     //! Variable available for Group type.
     struct Group {
         std::vector<int> children;			    //!< Child primitives.
-        bool instanced;							//!< True if the group is an instance group.
+        bool instanced = false;					//!< True if the group is an instance group.
         std::optional<Mat4> local_transform;	//!< Transformation applied to children.
 
         //! \cond
-- 
2.43.0


From ebcf104a8b8cee3e615eb380cc9016d5d675242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:58 +0000
Subject: [PATCH 02/96] fix: data race on the completion flag of the BVH
 construction

The flag is read by the worker threads without holding the mutex.
---
 src/accel/accel_sahbvh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 33ab6b0..c291cbc 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -167,7 +167,7 @@ public:
         std::condition_variable cv;     // For concurrent queue
         std::atomic<int> pr = 0;        // Processed triangles
         std::atomic<int> nn = 1;        // Number of current nodes
-        bool done = 0;                  // True if the build process is done
+        std::atomic<bool> done = false; // True if the build process is done
 
         auto process = [&]() {
             while (!done) {
-- 
2.43.0


From 1aceda65866ed9e1546bbd377a35c82aaa1b9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:58 +0000
Subject: [PATCH 03/96] fix: BVH of a scene without surfaces

The construction requested a node array of size -1 and threw std::length_error.
---
 src/accel/accel_sahbvh.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index c291cbc..64894a0 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -153,6 +153,12 @@ public:
         // --------------------------------------------------------------------
 
         const int nt = int(trs_.size()); // Number of triangles
+        if (nt == 0) {
+            // No surface in the scene
+            nodes_.clear();
+            indices_.clear();
+            return;
+        }
         struct Entry {
             int index;
             int start;
@@ -268,6 +274,9 @@ public:
 
     virtual std::optional<Hit> intersect(Ray ray, Float tmin, Float tmax) const override {
         exception::ScopedDisableFPEx guard_;  // Disable floating point exceptions
+        if (nodes_.empty()) {
+            return {};
+        }
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
         int s[99]{};
-- 
2.43.0


From aa692e899961da7efa72dbd1e16c818bcd67f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:58 +0000
Subject: [PATCH 04/96] fix: traversal stack overflow of deep BVHs

A hierarchy deeper than 98 levels wrote beyond the traversal stack.
Limit the depth of the hierarchy accordingly.
---
 src/accel/accel_sahbvh.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 64894a0..2064ee4 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -75,6 +75,9 @@ struct Tri {
     }
 };
 
+// Maximum depth of an internal node. Bounds the size of the traversal stack.
+constexpr int MaxDepth = 97;
+
 // BVH node
 struct Node {
     Bound b;        // Bound of the node
@@ -163,9 +166,10 @@ public:
             int index;
             int start;
             int end;
+            int depth;
         };
         std::queue<Entry> q;            // Queue for traversal (node index, start, end)
-        q.push({0, 0, nt});             // Initialize the queue with root node
+        q.push({0, 0, nt, 0});          // Initialize the queue with root node
         nodes_.assign(2*nt-1, {});      // Maximum number of nodes: 2*nt-1
         indices_.assign(nt, 0);
         std::iota(indices_.begin(), indices_.end(), 0);
@@ -178,7 +182,7 @@ public:
         auto process = [&]() {
             while (!done) {
                 // Each step construct a node for the triangles ranges in [s,e)
-                auto [ni, s, e] = [&]() -> Entry {
+                auto [ni, s, e, depth] = [&]() -> Entry {
                     std::unique_lock<std::mutex> lk(mu);
                     if (!done && q.empty()) {
                         cv.wait(lk, [&]() { return done || !q.empty(); });
@@ -221,8 +225,9 @@ public:
                     }
                 };
 
-                // Create a leaf node if the number of triangle is 1
-                if (e - s < 2) {
+                // Create a leaf node if the number of triangle is 1,
+                // or if the children would exceed the traversal stack
+                if (e - s < 2 || depth > MaxDepth) {
                     make_leaf();
                     continue;
                 }
@@ -257,8 +262,8 @@ public:
                 st(ba);
                 int m = s + bi;
                 std::unique_lock<std::mutex> lk(mu);
-                q.push({n.c1 = nn++, s, m});
-                q.push({n.c2 = nn++, m, e});
+                q.push({n.c1 = nn++, s, m, depth + 1});
+                q.push({n.c2 = nn++, m, e, depth + 1});
                 cv.notify_one();
             }
         };
@@ -279,7 +284,7 @@ public:
         }
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
-        int s[99]{};
+        int s[MaxDepth + 2]{};
         int si = 0;
         while (si >= 0) {
             auto& n = nodes_.at(s[si--]);
-- 
2.43.0


From d151b2a822fa2d2e4120750dc0a6329f21944a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:41 +0000
Subject: [PATCH 05/96] fix: weight of the alpha-mask component of OBJ
 materials

The sampled weight ignored the opacity although the component is selected
with probability 1-alpha, so semi-transparent surfaces gained energy.
---
 src/model/model_wavefrontobj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 343c9a8..74b9bcb 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -471,7 +471,7 @@ public:
             const auto C = f / p;
             return DirectionSample{
                 wo,
-                Vec3(1_f)
+                C
             };
         }
     }
-- 
2.43.0


From 9fdcf8847abd56cb28dde01ab125f68217e74e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:35 +0000
Subject: [PATCH 06/96] fix: latitude weights of the environment light
 distribution

The weight used the fractional row i/w instead of the row, which gives negative
weights in the last row and thus negative densities.
---
 src/light/light_env.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index bdcefd2..ae4db75 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -67,7 +67,7 @@ public:
             const int x = i % w;
             const int y = i / w;
             const auto v = envmap_->eval_by_pixel_coords(x, y) * scale_;
-            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(i) / w + .5_f) / h);
+            ls[i] = glm::compMax(v) * std::sin(Pi * (Float(y) + .5_f) / h);
         }
         dist_.init(ls, w, h);
     }
-- 
2.43.0


From bb022b5ba74480a0b94164f22b601b8e15278991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:35 +0000
Subject: [PATCH 07/96] fix: normalisation of an all-zero distribution

A black row of an environment map produced NaN densities.
---
 include/lm/math.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index 3b23371..73ebca0 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -345,6 +345,9 @@ struct Dist {
     */
     void norm() {
         const auto sum = c.back();
+        if (sum == 0_f) {
+            return;
+        }
         for (auto& v : c) {
             v /= sum;
         }
-- 
2.43.0


From 32d962f2ef4436c8a881ee1a6a4430f5230f962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:35 +0000
Subject: [PATCH 08/96] fix: environment light lookups along the poles

The vertical component of a unit direction can exceed one by rounding.
---
 src/light/light_env.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index ae4db75..4d24842 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -164,7 +164,7 @@ public:
         }();
         const auto t = (at - rot_) * .5_f / Pi;
         const auto u = t - std::floor(t);
-        const auto v = std::acos(d.y) / Pi;
+        const auto v = std::acos(std::clamp(d.y, -1_f, 1_f)) / Pi;
         const auto st = math::safe_sqrt(1 - d.y * d.y);
         if (st == 0_f) {
             return 0_f;
@@ -198,7 +198,7 @@ public:
             return at < 0_f ? at + 2_f * Pi : at;
         }();
         const auto t = (at - rot_) * .5_f / Pi;
-        return envmap_->eval({ t - floor(t), acos(d.y) / Pi }) * scale_;
+        return envmap_->eval({ t - floor(t), std::acos(std::clamp(d.y, -1_f, 1_f)) / Pi }) * scale_;
     }
 };
 
-- 
2.43.0


From 7feebb06ee528f97ccb5135fbc8e409f3c4227da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:35 +0000
Subject: [PATCH 09/96] fix: area density of scaled area lights

The area changes by J / |M^T n|, not by J.
---
 src/light/light_area.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index c2803f9..5eeaf81 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -37,11 +37,10 @@ public:
     }
 
 private:
-    Float tranformed_invA(const Transform& transform) const {
-        // TODO: Handle degenerated axis
-        // e.g., scaling by (.2,.2,.2) leads J=1/5^3
-        // but the actual change of areae is J=1/5^2
-        return invA_ / transform.J;
+    // PDF of the position on the transformed mesh, where gn is the geometry normal after transformation.
+    // The transform changes the area around the position by the factor J / |M_lin^T gn|.
+    Float tranformed_invA(const Transform& transform, Vec3 gn) const {
+        return invA_ * glm::length(glm::transpose(Mat3(transform.M)) * gn) / transform.J;
     }
 
     PointGeometry sample_position_on_triangle_mesh(Vec2 up, Float upc, const Transform& transform) const {
@@ -78,7 +77,7 @@ public:
     virtual std::optional<RaySample> sample_ray(const RaySampleU& us, const Transform& transform) const override {
         // Sample position
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(transform, geomL.gn);
         
         // Sample direction
         const auto wo_local = math::sample_cosine_weighted(us.ud);
@@ -132,15 +131,15 @@ public:
 
     virtual std::optional<PositionSample> sample_position(const PositionSampleU& us, const Transform& transform) const override {
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(transform, geomL.gn);
         return PositionSample{
             geomL,
             Vec3(1_f / pA)
         };
     }
 
-    virtual Float pdf_position(const PointGeometry&, const Transform& transform) const override {
-        return tranformed_invA(transform);
+    virtual Float pdf_position(const PointGeometry& geom, const Transform& transform) const override {
+        return tranformed_invA(transform, geom.gn);
     }
 
     // --------------------------------------------------------------------------------------------
@@ -165,7 +164,7 @@ public:
             return 0_f;
         }
         const auto G = surface::geometry_term(geom, geomL);
-        return G == 0_f ? 0_f : tranformed_invA(transform) / G;
+        return G == 0_f ? 0_f : tranformed_invA(transform, geomL.gn) / G;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From c6c618b0ee706a29cbb04f67b2e4bf8541798450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:26 +0000
Subject: [PATCH 10/96] fix: initialising a 2d distribution again

The marginal distribution kept the rows of the former one.
---
 include/lm/math.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index 73ebca0..f9da21a 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -400,6 +400,7 @@ struct Dist2 {
         w = cols;
         h = rows;
         ds.assign(h, {});
+        m.clear();
         for (int i = 0; i < h; i++) {
             auto& d = ds[i];
             for (int j = 0; j < w; j++) {
-- 
2.43.0


From 703c9a9c5f4532ddbb69fa4cb73d0c294ed322da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:26 +0000
Subject: [PATCH 11/96] fix: saturation of bright pixels in LDR images

The conversion to int overflowed before the value was clamped.
---
 src/film/film_bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index cf3a60a..a81c864 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -265,7 +265,7 @@ private:
                     }
                     if constexpr (std::is_same_v<T, unsigned char>) {
                         const auto t2 = std::pow(t, 1_f/2.2_f);
-                        v[3*(yy*w_+x)+i] = (unsigned char)glm::clamp(int(256_f*t2), 0, 255);
+                        v[3*(yy*w_+x)+i] = t2 > 0_f ? (unsigned char)(std::min(256_f*t2, 255_f)) : 0;
                     }
                 }
             }
-- 
2.43.0


From f4c32e85daac338d53775e635bd95b5aed45967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:26 +0000
Subject: [PATCH 12/96] fix: clamping of raster positions far outside of the
 film

The conversion to int overflowed before the value was clamped.
---
 include/lm/film.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/film.h b/include/lm/film.h
index 68c2663..3a7f6b2 100644
--- a/include/lm/film.h
+++ b/include/lm/film.h
@@ -165,8 +165,8 @@ public:
     */
     glm::ivec2 raster_to_pixel(Vec2 rp) const {
         const auto [w, h] = size();
-        const int x = glm::clamp((int)(rp.x * Float(w)), 0, w-1);
-        const int y = glm::clamp((int)(rp.y * Float(h)), 0, h-1);
+        const int x = (int)glm::clamp(rp.x * Float(w), 0_f, Float(w-1));
+        const int y = (int)glm::clamp(rp.y * Float(h), 0_f, Float(h-1));
         return {x, y};
     }
 
-- 
2.43.0


From 5e94a235b275fbad8018acb24b5474916c4d3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:27 +0000
Subject: [PATCH 13/96] fix: out-of-bounds reads of grayscale textures

---
 src/texture/texture_bitmap.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index a10d9f9..f3b1799 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -41,6 +41,12 @@ public:
         ar(w_, h_, c_, data_);
     }
 
+private:
+    // Color of the i-th pixel. Grayscale images (with or without alpha) have one color channel.
+    Vec3 color_at(int i) const {
+        return c_ < 3 ? Vec3(data_[c_*i]) : Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+    }
+
 public:
     virtual TextureSize size() const override {
         return { w_, h_ };
@@ -71,12 +77,12 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Vec3 eval_by_pixel_coords(int x, int y) const override {
         const int i = w_*y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Float eval_alpha(Vec2 t) const override {
@@ -85,11 +91,11 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return data_[c_*i+3];
+        return data_[c_*i+c_-1];
     }
 
     virtual bool has_alpha() const override {
-        return c_ == 4;
+        return c_ == 2 || c_ == 4;
     }
 
     virtual TextureBuffer buffer() override {
-- 
2.43.0


From b3eb8bf5ba1757e3894e3700ce8337b720a5aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:27 +0000
Subject: [PATCH 14/96] fix: uninitialised view parameters of cameras given by
 a matrix

---
 src/camera/camera_pinhole.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 3a00e78..31d2443 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -82,6 +82,8 @@ public:
             u_ = -viewM3[0];
             v_ = viewM3[1];
             w_ = -viewM3[2];
+            center_ = position_ - w_;
+            up_ = v_;
         }
         else {
             position_ = json::value<Vec3>(prop, "position"); // Camera position
-- 
2.43.0


From 0052ef56bd1e0fe21ed2ae89772389391eadaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:18 +0000
Subject: [PATCH 15/96] fix: connections to the pinhole camera from outside of
 the view

The weight of a connection did not agree with the importance, and was negative
for points behind of the camera.
---
 src/camera/camera_pinhole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 31d2443..369f03b 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -184,7 +184,7 @@ public:
         }
         const auto geomE = PointGeometry::make_degenerated(position_);
         const auto wo = glm::normalize(geom.p - position_);
-        const auto We = Vec3(J(wo));
+        const auto We = eval(wo);
         const auto p = pdf_direct(geom, geomE, wo);
         if (p == 0_f) {
             return {};
-- 
2.43.0


From 9134391ff66f1ef9451f4c54ba541b3570fcce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 16/96] fix: number of threads below the negated number of
 cores

---
 src/parallel/parallel_openmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index a670d2c..9369b3b 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -24,7 +24,7 @@ public:
         progress_update_interval_ = json::value<long long>(prop, "progress_update_interval", 100);
         num_threads_ = json::value(prop, "num_threads", std::thread::hardware_concurrency());
         if (num_threads_ <= 0) {
-            num_threads_ = std::thread::hardware_concurrency() + num_threads_;
+            num_threads_ = std::max(1, int(std::thread::hardware_concurrency()) + num_threads_);
         }
         omp_set_num_threads(num_threads_);
     }
-- 
2.43.0


From 01bf32cab4443b7a1115440c80079cab81dbfe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 17/96] fix: number of threads of loops started from other
 threads

omp_set_num_threads affects only the thread which initialised the context, thus
thread ids could exceed num_threads().
---
 src/parallel/parallel_openmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index 9369b3b..0f87aa3 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -45,7 +45,7 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
-        #pragma omp parallel for schedule(dynamic, 1)
+        #pragma omp parallel for num_threads(num_threads_) schedule(dynamic, 1)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
             if (done) {
-- 
2.43.0


From a0713ba38869b7501aa03f13d0b3cc71d4a3f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 18/96] fix: progress of a parallel loop counted samples of
 former loops

---
 src/parallel/parallel_openmp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parallel/parallel_openmp.cpp b/src/parallel/parallel_openmp.cpp
index 0f87aa3..79ad467 100644
--- a/src/parallel/parallel_openmp.cpp
+++ b/src/parallel/parallel_openmp.cpp
@@ -45,6 +45,7 @@ public:
 
         // Execute parallel loop
         std::atomic<long long> processed = 0;
+        std::vector<long long> counts(num_threads_, 0);
         #pragma omp parallel for num_threads(num_threads_) schedule(dynamic, 1)
         for (long long i = 0; i < numSamples; i++) {
             // Spin the loop if cancellation is requested
@@ -74,7 +75,7 @@ public:
                 processFunc(i, thread_id);
 
                 // Update processed number of samples
-                if (thread_local long long count = 0; ++count >= progress_update_interval_) {
+                if (auto& count = counts[thread_id]; ++count >= progress_update_interval_) {
                     processed += count;
                     count = 0;
                 }
-- 
2.43.0


From 3c6c2cad42c1f409e2bc7eac5c05f662653cea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 19/96] fix: camera test in a scene without camera

---
 src/scene.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index a10acf8..59e8f93 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -362,7 +362,7 @@ public:
     }
 
     virtual bool is_camera(const SceneInteraction& sp) const override {
-        return sp.primitive == *camera_;
+        return camera_ && sp.primitive == *camera_;
     }
 
     #pragma endregion
-- 
2.43.0


From 0f2bdb805364b8e57d612d4298c746c3a6d61042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 20/96] fix: null dereference when a scene without acceleration
 structure is built

---
 src/scene.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index 59e8f93..6885582 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -311,6 +311,7 @@ public:
         }
 
         // Build acceleration structure
+        require_accel();
         LM_INFO("Building acceleration structure [name='{}']", accel_->name());
         LM_INDENT();
         accel_->build(*this);
-- 
2.43.0


From d6e7225548b39e63b0575d495cb068323612d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 21/96] fix: missing check of the index of a child node

An invalid index such as -1 returned by create_group_from_model() on failure was
accepted and made every later traversal of the scene fail.
---
 src/scene.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index 6885582..613146a 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -146,6 +146,11 @@ public:
             return;
         }
 
+        if (child < 0 || child >= int(nodes_.size())) {
+            LM_ERROR("Missing child index [index='{}']", child);
+            return;
+        }
+
         auto& node = nodes_.at(parent);
         if (node.type != SceneNodeType::Group) {
             LM_ERROR("Adding child to non-group node [parent='{}', child='{}']", parent, child);
-- 
2.43.0


From ccd95e113dcdcf50c8e5fbfca2876fd8ba0b75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 22/96] fix: serialization of the medium of a scene

---
 src/scene.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index 613146a..4ad083b 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_);
+        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_, medium_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
-- 
2.43.0


From 048d88c717dda53fcc5cfa4a2f5982950fb4020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:36 +0000
Subject: [PATCH 23/96] fix: references of scene nodes to media are not updated

The medium was not visited as an underlying component, thus the reference dangled
when the asset was replaced.
---
 src/scene.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index 4ad083b..6ea6ae8 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -40,6 +40,7 @@ public:
                 comp::visit(visit, node.primitive.material);
                 comp::visit(visit, node.primitive.light);
                 comp::visit(visit, node.primitive.camera);
+                comp::visit(visit, node.primitive.medium);
             }
         }
     }
-- 
2.43.0


From 7979f2e979c7534f7e7bd59d9c9a53da1cb17798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 24/96] fix: assets whose construction fails

A failed replacement released the instance other assets refer to, and
a failed new asset stayed registered half-initialised.
---
 src/assetgroup.cpp | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7f33502..7033d43 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -41,6 +41,18 @@ private:
         return std::regex_match(name, match, regex);
     }
 
+    // Unregister an asset which could not be initialized
+    void unregister_asset(const std::string& name) {
+        const int index = asset_index_map_.at(name);
+        asset_index_map_.erase(name);
+        if (index + 1 == int(assets_.size())) {
+            assets_.pop_back();
+        }
+        else {
+            assets_[index].reset();
+        }
+    }
+
 public:
     virtual Component* load_asset(const std::string& name, const std::string& impl_key, const Json& prop) override {
         LM_INFO("Loading asset [name='{}']", name);
@@ -55,6 +67,7 @@ public:
         // Check if the asset with given name has been already loaded
         const auto it = asset_index_map_.find(name);
         const bool found = it != asset_index_map_.end();
+        const int index = found ? it->second : int(assets_.size());
         if (found) {
             LM_INFO("Asset [name='{}'] has been already loaded. Replacing..", name);
         }
@@ -74,15 +87,22 @@ public:
             // Move existing instance
             // This must not be released until the end of this scope
             // because weak references needs to find locator in the existing instance.
-            auto old = std::move(assets_[it->second]);
+            auto old = std::move(assets_[index]);
 
             // Replace the existing instance
-            assets_[it->second] = std::move(p);
-            asset = assets_[it->second].get();
+            assets_[index] = std::move(p);
+            asset = assets_[index].get();
 
             // Initialize the asset
-            // This might cause an exception
-            asset->construct(prop);
+            // This might cause an exception. In this case, the existing instance stays in place
+            // because the other assets still refer to it.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                assets_[index] = std::move(old);
+                throw;
+            }
 
             // Notify to update the weak references in the object tree
             const Component::ComponentVisitor visitor = [&](Component*& comp, bool weak) {
@@ -104,12 +124,19 @@ public:
         }
         else {
             // Register as a new asset
-            asset_index_map_[name] = int(assets_.size());
+            asset_index_map_[name] = index;
             assets_.push_back(std::move(p));
             asset = assets_.back().get();
 
             // Initialize the asset
-            asset->construct(prop);
+            // This might cause an exception. In this case, the asset is not registered.
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                unregister_asset(name);
+                throw;
+            }
         }
 
         return asset;
-- 
2.43.0


From e66e9f6f798decd2cd63941fb3470c63e011fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 25/96] fix: assets whose deserialization fails stayed
 registered

---
 src/assetgroup.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7033d43..4d454bf 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -154,14 +154,22 @@ public:
         // Register the asset
         // This must happen before deserialization because
         // the loading process might refer to the underlying component via locator.
-        asset_index_map_[name] = int(assets_.size());
+        const int index = int(assets_.size());
+        asset_index_map_[name] = index;
         assets_.emplace_back();
      
         // Deserialize the asset
-        std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, assets_.back(), make_loc(name));
+        // If it fails, the asset is not registered.
+        try {
+            std::ifstream is(path, std::ios::in | std::ios::binary);
+            serial::load_comp(is, assets_.at(index), make_loc(name));
+        }
+        catch (...) {
+            unregister_asset(name);
+            throw;
+        }
 
-        return assets_.back().get();
+        return assets_.at(index).get();
     }
 };
 
-- 
2.43.0


From 9054ed45df134009c76275a2cf8059b341a72c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 26/96] fix: leak of instances created with a wrong interface
 type

---
 include/lm/component.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/lm/component.h b/include/lm/component.h
index 314e509..2b5fb8e 100644
--- a/include/lm/component.h
+++ b/include/lm/component.h
@@ -569,7 +569,12 @@ Component::Ptr<InterfaceT> create_without_construct(const std::string& key, cons
         return {};
     }
     detail::Access::loc(inst) = loc;
-    return Component::Ptr<InterfaceT>(dynamic_cast<InterfaceT*>(inst));
+    auto* p = dynamic_cast<InterfaceT*>(inst);
+    if (!p) {
+        // Wrong interface type. Release the unused instance.
+        ComponentDeleter()(inst);
+    }
+    return Component::Ptr<InterfaceT>(p);
 }
 
 /*!
-- 
2.43.0


From c2a66afc3814b9b58abe49302defcd2c24722a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 27/96] fix: deserialization of optional references

The address of a local variable was recorded as the place of the
reference to be recovered.
---
 include/lm/serial.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 3fbf2ca..9ac9e54 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -47,9 +47,9 @@ void load(Archive& ar, std::optional<T>& optional) {
         optional = std::nullopt;
     }
     else {
-        T value;
-        ar(CEREAL_NVP_("data", value));
-        optional = std::move(value);
+        // Load in place because weak references are recorded by address
+        optional.emplace();
+        ar(CEREAL_NVP_("data", *optional));
     }
 }
 
-- 
2.43.0


From de505c8c51d5592a29c61f969a17194bbb7a7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 28/96] fix: detection of references out of a serialized
 subtree

The locator of an outer asset can share its first characters with the
root of the subtree.
---
 include/lm/serial.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 9ac9e54..0382207 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -21,6 +21,20 @@
 
 //! \cond
 
+LM_NAMESPACE_BEGIN(LM_NAMESPACE)
+LM_NAMESPACE_BEGIN(serial)
+LM_NAMESPACE_BEGIN(detail)
+
+// Check if the component of the locator belongs to the subtree with the root.
+inline bool is_in_subtree(const std::string& loc, const std::string& root_loc) {
+    return loc.compare(0, root_loc.size(), root_loc) == 0
+        && (loc.size() == root_loc.size() || loc[root_loc.size()] == '.');
+}
+
+LM_NAMESPACE_END(detail)
+LM_NAMESPACE_END(serial)
+LM_NAMESPACE_END(LM_NAMESPACE)
+
 LM_NAMESPACE_BEGIN(cereal)
 
 /*
@@ -135,8 +149,8 @@ void save_owned(Archive& ar, T* p) {
             // If the root locator is specified, serialize the locator relative to the root.
 
             // Consistency testing
-            // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            // Current locator must be root_loc or below
+            if (!lm::serial::detail::is_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -251,8 +265,8 @@ serialize(lm::OutputArchive& ar, T*& p) {
             // If the root locator is specified, serialize the locator relative to the root.
 
             // Consistency testing
-            // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            // Current locator must be root_loc or below
+            if (!lm::serial::detail::is_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -369,9 +383,9 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
         }
         if (weak) {
             // Check if the weak reference is referring to an asset in the subtree
-            // by checking if the locator starts with root_loc.
+            // by checking if the locator is root_loc or below.
             const auto loc = visiting_comp->loc();
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!detail::is_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(Error::Unsupported,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
-- 
2.43.0


From 71c91cd7ab6f7251899706041aa76e22e1d85e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 29/96] fix: deserialization went on after an unknown component

---
 include/lm/serial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 0382207..5888776 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -219,7 +219,8 @@ void load(Archive& ar, lm::Component::Ptr<T>& p) {
         // Be careful not to call construct() function here
         p = lm::comp::create_without_construct<T>(key, loc);
         if (!p) {
-            return;
+            LM_THROW_EXCEPTION(lm::Error::IOError,
+                "Failed to create a serialized component [key='{}', loc='{}']", key, loc);
         }
 
         // Load the contents
-- 
2.43.0


From 73e596e37be8e13e526602700df56dd60fc7a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 30/96] fix: the assets were lost when the loading of a state
 failed

---
 src/user.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/user.cpp b/src/user.cpp
index 9c46794..f457c3d 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -108,7 +108,16 @@ public:
 
     void load_state_from_file(const std::string& path) {
         std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, root_assets_, root_assets_->loc());
+        // Keep the current assets if the loading fails
+        const auto root_loc = root_assets_->loc();
+        auto old = std::move(root_assets_);
+        try {
+            serial::load_comp(is, root_assets_, root_loc);
+        }
+        catch (...) {
+            root_assets_ = std::move(old);
+            throw;
+        }
     }
 };
 
-- 
2.43.0


From e568e0618de198c28400bc606831f980afc98def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 31/96] fix: errors on saving a state were ignored

---
 src/user.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/user.cpp b/src/user.cpp
index f457c3d..9b8025b 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -104,6 +104,10 @@ public:
     void save_state_to_file(const std::string& path) {
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
+        os.flush();
+        if (!os) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to save a state [path='{}']", path);
+        }
     }
 
     void load_state_from_file(const std::string& path) {
-- 
2.43.0


From c4a766b6e948ffadf9935e90d11ac1154e9c8bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 32/96] fix: loading of the plugins in a directory

The directory was dropped from the paths, and a failure was not ignored.
---
 src/component.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/component.cpp b/src/component.cpp
index 999aa57..a55f5a2 100644
--- a/src/component.cpp
+++ b/src/component.cpp
@@ -295,7 +295,14 @@ public:
             if (!std::regex_match(filename.c_str(), match, pluginNameExp)) {
                 continue;
             }
-            load_plugin(it->path().stem().string().c_str());
+            // Path without extension
+            // According to the current configuration, load_plugin() modifies the name.
+            try {
+                load_plugin((it->path().parent_path() / it->path().stem()).string());
+            }
+            catch (const Exception& e) {
+                LM_ERROR("Ignoring plugin [error='{}']", e.what());
+            }
         }
     }
 
-- 
2.43.0


From 7670d7c8fd86b48633aaef2012f4ce2fa3f1073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 33/96] fix: the scale of environment lights was not serialized

---
 src/light/light_env.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index 4d24842..3f39608 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -33,7 +33,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(sphere_bound_, envmap_, rot_, dist_);
+        ar(sphere_bound_, envmap_, rot_, scale_, dist_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visitor) override {
-- 
2.43.0


From 27085b185e492a8add8d1ffd3f1706797f30383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 34/96] fix: the alpha of constant textures was not serialized

---
 src/texture/texture_constant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/texture/texture_constant.cpp b/src/texture/texture_constant.cpp
index 48c0414..e58fa41 100644
--- a/src/texture/texture_constant.cpp
+++ b/src/texture/texture_constant.cpp
@@ -26,7 +26,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(color_);
+		ar(color_, alpha_);
 	}
 
 public:
-- 
2.43.0


From 9bde04ec8dd6be6a602dba664b8d91d798ee29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 35/96] fix: the values of constant volumes were not serialized

---
 src/volume/volume_constant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_constant.cpp b/src/volume/volume_constant.cpp
index 1186288..22b60ef 100644
--- a/src/volume/volume_constant.cpp
+++ b/src/volume/volume_constant.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(bound_);
+		ar(bound_, color_, scalar_);
 	}
 
 public:
-- 
2.43.0


From 414c760a46dc674e05d3ed4f990920be5126222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 36/96] fix: the albedo of homogeneous media was not serialized

---
 src/medium/medium_homogeneous.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 62839cb..59cbce2 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -34,7 +34,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(density_, muA_, muS_, phase_, bound_);
+        ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
 public:
-- 
2.43.0


From 7bb065897dad1bf20db28a609934959a603da69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 37/96] fix: the colour of the raycast renderer was not
 serialized

---
 src/renderer/renderer_raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index ed2fbd9..5667438 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -28,7 +28,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, sched_);
+        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, color_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
-- 
2.43.0


From bbedc11e25a0a3668e9ce7ddbdf99be915dcca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 38/96] fix: serialization of renderers

The scheduler could not be found by its locator, so that saving failed;
some parameters were left out, and the path-space renderers did not
serialize nor report their references at all.
---
 src/renderer/renderer_bdpt.cpp    | 21 ++++++++++++++++++++-
 src/renderer/renderer_bdptopt.cpp | 24 +++++++++++++++++++++---
 src/renderer/renderer_lt.cpp      |  7 +++++++
 src/renderer/renderer_pt.cpp      |  9 ++++++++-
 src/renderer/renderer_volpt.cpp   |  9 ++++++++-
 5 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index d3aedfa..2b208a0 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -44,6 +44,24 @@ public:
     std::optional<unsigned int> seed_;              // Random seed
     Component::Ptr<scheduler::Scheduler> sched_;    // Scheduler for parallel processing
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -304,7 +322,8 @@ public:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
 
     virtual Component* underlying(const std::string& name) const override {
-        return strategy_film_name_map_.at(name);
+        const auto it = strategy_film_name_map_.find(name);
+        return it != strategy_film_name_map_.end() ? it->second : Renderer_Path_Base::underlying(name);
     }
 
     virtual void construct(const Json& prop) override {
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c4d2435..8bf8a12 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -433,6 +433,17 @@ private:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
     #endif
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -461,11 +472,18 @@ public:
         #endif
     }
 
-    #if BDPT_PER_STRATEGY_FILM
     virtual Component* underlying(const std::string& name) const override {
-        return strategy_film_name_map_.at(name);
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        #if BDPT_PER_STRATEGY_FILM
+        const auto it = strategy_film_name_map_.find(name);
+        if (it != strategy_film_name_map_.end()) {
+            return it->second;
+        }
+        #endif
+        return nullptr;
     }
-    #endif
 
     virtual Json render() const override {
         scene_->require_renderable();
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index d22038e..ea2e9ed 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -34,6 +34,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 4427681..f9dd68a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -38,7 +38,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, sampling_mode_, sched_);
+        ar(scene_, film_, max_verts_, seed_, sampling_mode_, primary_ray_sampling_mode_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -47,6 +47,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4fc1743..e60f1c3 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -27,7 +27,7 @@ protected:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, rr_prob_, sched_);
+        ar(scene_, film_, max_verts_, rr_prob_, seed_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
@@ -36,6 +36,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
-- 
2.43.0


From 42640e557c83b094f7e9cb1240e707cc6a4d7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 39/96] fix: references of media and volumes were not updated

---
 src/medium/medium_heterogeneous.cpp | 12 +++++++++---
 src/medium/medium_homogeneous.cpp   |  6 +++++-
 src/volume/volume_multi.cpp         |  9 +++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 4731d4d..156339c 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -25,15 +25,21 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Medium_Heterogeneous final : public Medium {
 private:
-    const Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
-    const Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
-    const Phase* phase_;            // Underlying phase function.
+    Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
+    Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
+    Phase* phase_;            // Underlying phase function.
 
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(volume_density_, volme_albedo_, phase_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, volume_density_);
+        comp::visit(visit, volme_albedo_);
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 59cbce2..fea3df0 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -29,7 +29,7 @@ private:
     Vec3 albedo_;           // Albedo of volume := \mu_s / \mu_t
     Vec3 muA_;              // Absorption coefficient.
     Vec3 muS_;              // Scattering coefficient.
-    const Phase* phase_;    // Underlying phase function.
+    Phase* phase_;    // Underlying phase function.
     Bound bound_;
 
 public:
@@ -37,6 +37,10 @@ public:
         ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         density_ = json::value<Float>(prop, "density");
diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 03bafce..93fd841 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -32,6 +32,15 @@ public:
         ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        for (auto& v : volumes_den_) {
+            comp::visit(visit, v);
+        }
+        for (auto& v : volumes_alb_) {
+            comp::visit(visit, v);
+        }
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         // Currently no straightforward way to use json::comp_ref<Volume>() on an array
-- 
2.43.0


From e2f2b4b2f49701ece036cf7a937826ade3c184e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 40/96] fix: null dereference on invalid references of multiple
 volumes

---
 src/volume/volume_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 93fd841..f03f160 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -57,6 +57,8 @@ public:
             volumes_alb_.push_back( comp::get<Volume>(vol_ref_alb[i]) );
             volumes_den_.push_back( comp::get<Volume>(vol_ref_den[i]) );
 
+            if (!volumes_alb_.back() || !volumes_den_.back())
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] or volumes_den[{}] is not a volume", i, i);
             if (!volumes_alb_.back()->has_color())
                 LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] has no albedo/color", i);
             if (!volumes_den_.back()->has_scalar())
-- 
2.43.0


From 32aff045807da633e990b3861fc874d4b8a7f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 41/96] fix: undefined colour of multiple volumes where the
 density is zero

---
 src/volume/volume_multi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index f03f160..9b929cd 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -142,7 +142,7 @@ public:
             sum += sc;
         }
         //perform the scalar ratio
-        return resulting_color/sum;
+        return sum > 0_f ? resulting_color/sum : Vec3(0_f);
     }
 };
 
-- 
2.43.0


From aea8eae24da5bd6b2c33d6a5f361de2b92127947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:04 +0000
Subject: [PATCH 42/96] fix: seeds of renderers were ignored after the first
 rendering

The generators belonged to the threads, so that they kept the state of
former renderings, even of other renderers and seeds.
---
 src/renderer/renderer_bdpt.cpp    | 33 +++++++++++++++++++++++++++----
 src/renderer/renderer_bdptopt.cpp |  8 +++++++-
 src/renderer/renderer_lt.cpp      |  9 ++++++++-
 src/renderer/renderer_pt.cpp      |  9 ++++++++-
 src/renderer/renderer_volpt.cpp   | 19 ++++++++++++++++--
 5 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 2b208a0..81a8578 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -12,6 +12,7 @@
 #include <lm/bidir.h>
 #include <lm/debug.h>
 #include <lm/timer.h>
+#include <lm/parallel.h>
 
 // Poll mutated paths
 #define BDPT_POLL_PATHS 0
@@ -86,12 +87,18 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample eye subpath
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
@@ -152,10 +159,16 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long, int threadid) {
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
@@ -228,12 +241,18 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, 1, TransDir::EL);
@@ -352,12 +371,18 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             const auto subpathE = path::sample_subpath(rng, scene_, max_verts_, TransDir::EL);
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index 8bf8a12..7d3469f 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -492,12 +492,18 @@ public:
         timer::ScopedTimer st;
 
 
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // Sample subpaths
             thread_local Path subpathE;
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index ea2e9ed..472f905 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -11,6 +11,7 @@
 #include <lm/scheduler.h>
 #include <lm/path.h>
 #include <lm/timer.h>
+#include <lm/parallel.h>
 
 LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 
@@ -60,10 +61,16 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long, long long, int threadid) {
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index f9dd68a..20a6386 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -11,6 +11,7 @@
 #include <lm/scheduler.h>
 #include <lm/path.h>
 #include <lm/timer.h>
+#include <lm/parallel.h>
 
 LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 
@@ -92,10 +93,16 @@ public:
         const auto size = film_->size();
         timer::ScopedTimer st;
 
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         // Execute parallel process
         const auto processed = sched_->run([&](long long pixel_index, long long, int threadid) {
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index e60f1c3..18cc4b1 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -11,6 +11,7 @@
 #include <lm/scheduler.h>
 #include <lm/path.h>
 #include <lm/timer.h>
+#include <lm/parallel.h>
 
 #define VOLPT_IMAGE_SAMPLING 0
 
@@ -71,11 +72,18 @@ public:
         film_->clear();
         const auto size = film_->size();
         timer::ScopedTimer st;
+
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         const auto processed = sched_->run([&](long long pixel_index, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
@@ -208,11 +216,18 @@ public:
         film_->clear();
         const auto size = film_->size();
         timer::ScopedTimer st;
+
+        // Random number generators of the threads
+        std::vector<Rng> rngs;
+        for (int i = 0; i < parallel::num_threads(); i++) {
+            rngs.emplace_back(seed_ ? *seed_ + i : math::rng_seed());
+        }
+
         const auto processed = sched_->run([&](long long pixel_index, long long sample_index, int threadid) {
             LM_KEEP_UNUSED(sample_index);
 
             // Per-thread random number generator
-            thread_local Rng rng(seed_ ? *seed_ + threadid : math::rng_seed());
+            auto& rng = rngs[threadid];
 
             // ------------------------------------------------------------------------------------
 
-- 
2.43.0


From 2554c192690f01be5575b7080482047490837299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:44 +0000
Subject: [PATCH 43/96] fix: distance sampling failed in a scene without a
 medium

path::sample_distance threw std::out_of_range (ending the process in a
parallel rendering) although path::eval_transmittance supports such scenes.
---
 include/lm/path.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index 1a1ddaf..d6e1a5b 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -612,9 +612,13 @@ static std::optional<DistanceSample> sample_distance(Rng& rng, const Scene* scen
     const auto hit = scene->intersect({ sp.geom.p, wo }, Eps, Inf);
     const auto dist = hit && !hit->geom.infinite ? glm::length(hit->geom.p - sp.geom.p) : Inf;
 
-    // Sample a distance
-    const auto* medium = scene->node_at(scene->medium_node()).primitive.medium;
-    const auto ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
+    // Sample a distance. Without a medium, the next event is always on the surface.
+    std::optional<Medium::DistanceSample> ds;
+    const int medium_index = scene->medium_node();
+    if (medium_index != -1) {
+        const auto* medium = scene->node_at(medium_index).primitive.medium;
+        ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
+    }
     if (ds && ds->medium) {
         // Medium interaction
         return DistanceSample{
-- 
2.43.0


From 17f4d7fb2acd53eb8765ab73000d7425887dc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:13 +0000
Subject: [PATCH 44/96] fix: normal visualization used undefined normals of
 environment light

The geometry of a hit with environment light has no normal, the pixel
values were taken from uninitialized memory.
---
 src/renderer/renderer_raycast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index 5667438..e705302 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -72,7 +72,8 @@ public:
             const int y = int(index / size.w);
             const auto ray = path::primary_ray(scene_, {(x+.5_f)/size.w, (y+.5_f)/size.h});
             const auto sp = scene_->intersect(ray);
-            if (!sp) {
+            if (!sp || (visualize_normal_ && sp->geom.infinite)) {
+                // No surface is visible. Note that environment light does not have a normal.
                 film_->set_pixel(x, y, bg_color_);
                 return;
             }
-- 
2.43.0


From d5abea2add09d6cec73fcc595caa95a8dd75a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:13 +0000
Subject: [PATCH 45/96] fix: light tracing dereferenced empty samples of light
 rays

---
 src/renderer/renderer_lt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index 472f905..82507d4 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -76,6 +76,9 @@ public:
 
             // Sample primary ray
             const auto s_primary = path::sample_primary_ray(rng, scene_, TransDir::LE);
+            if (!s_primary) {
+                return;
+            }
 
             // Intersection to next surface
             const auto hit_primary = scene_->intersect(s_primary->ray());
-- 
2.43.0


From d4760ff80a406eab59d20db32e2ac92f471e85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:13 +0000
Subject: [PATCH 46/96] fix: unknown sampling modes of path tracing were not
 rejected

An unknown 'sampling_mode' left the mode uninitialized and an unknown
'primary_ray_sampling_mode' led to a null dereference in rendering.
---
 src/renderer/renderer_pt.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 20a6386..6241deb 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -66,6 +66,10 @@ public:
             if (s == "naive")    sampling_mode_ = SamplingMode::Naive;
             else if (s == "nee") sampling_mode_ = SamplingMode::NEE;
             else if (s == "mis") sampling_mode_ = SamplingMode::MIS;
+            else {
+                LM_THROW_EXCEPTION(Error::InvalidArgument,
+                    "Unknown sampling mode [sampling_mode='{}']", s);
+            }
         }
         {
 
@@ -81,6 +85,10 @@ public:
                 sched_ = comp::create<scheduler::Scheduler>(
                     "scheduler::spi::" + name, make_loc("scheduler"), prop);
             }
+            else {
+                LM_THROW_EXCEPTION(Error::InvalidArgument,
+                    "Unknown sampling mode of primary rays [primary_ray_sampling_mode='{}']", s);
+            }
         }
     }
 
-- 
2.43.0


From 8aa2ecf90bb9c2ca3275757b7e4a8858af244701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:13 +0000
Subject: [PATCH 47/96] fix: locators of missing assets of a model threw an
 exception

---
 src/model/model_wavefrontobj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 74b9bcb..0ab9bdd 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -68,7 +68,8 @@ public:
 
 public:
     virtual Component* underlying(const std::string& name) const override {
-        return assets_[assets_map_.at(name)].get();
+        const auto it = assets_map_.find(name);
+        return it != assets_map_.end() ? assets_.at(it->second).get() : nullptr;
     }
 
 	virtual void construct(const Json& prop) override {
-- 
2.43.0


From ad5c710587c0c0a3d21d9eb892de7164660624c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:07 +0000
Subject: [PATCH 48/96] fix: data race on the severity of the logger

---
 src/logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index cba1e45..2214af4 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -15,9 +15,9 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE::log)
 class LoggerContext_Default : public LoggerContext {
 private:
     #if LM_DEBUG_MODE
-    int severity_ = -100;
+    std::atomic<int> severity_ = -100;
     #else
-    int severity_ = 0;
+    std::atomic<int> severity_ = 0;
     #endif
     int indentation_ = 0;
     std::string indentation_string_;
-- 
2.43.0


From 7926266f311221da47b844d1d642d471b7850c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:07 +0000
Subject: [PATCH 49/96] fix: the end of progress messages was taken for a
 progress message

---
 include/lm/logger.h | 2 +-
 src/logger.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/logger.h b/include/lm/logger.h
index 85e544c..32ebc0f 100644
--- a/include/lm/logger.h
+++ b/include/lm/logger.h
@@ -84,7 +84,7 @@ enum class LogLevel : int {
         used in the end of the progress message.
         \endrst
     */
-    ProgressEnd = 100,
+    ProgressEnd = 101,
 };
 
 /*!
diff --git a/src/logger.cpp b/src/logger.cpp
index 2214af4..2e7134c 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -116,7 +116,7 @@ public:
             else {
                 std::cout << header;
             }
-            std::cout << body << whitespaces << "\r" << std::flush;
+            std::cout << body << whitespaces << (level == LogLevel::ProgressEnd ? "\n" : "\r") << std::flush;
 
             // ProgressEnd incurs newline so reset the cached values
             if (level == LogLevel::ProgressEnd) {
-- 
2.43.0


From 9feee852606058e74d5496c7ec4cf86c86f5bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:07 +0000
Subject: [PATCH 50/96] fix: null dereference on a missing progress reporter

---
 src/progress.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/progress.cpp b/src/progress.cpp
index dc9beff..b045693 100644
--- a/src/progress.cpp
+++ b/src/progress.cpp
@@ -63,8 +63,15 @@ private:
 public:
     virtual void construct(const Json& prop) override {
         delay_ = milliseconds(json::value<int>(prop, "delay"));
-        auto it = prop["progress"].begin();
+        const auto progress = prop.find("progress");
+        if (progress == prop.end() || !progress->is_object() || progress->empty()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Missing or invalid property [name='progress']");
+        }
+        auto it = progress->begin();
         ctx_ = comp::create<ProgressContext>(it.key(), "", it.value());
+        if (!ctx_) {
+            LM_THROW_EXCEPTION_DEFAULT(Error::InvalidArgument);
+        }
     }
 
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
-- 
2.43.0


From 7915e9725c7f0e2bb8613fa890a8bb9f86b7be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 51/96] fix: long names and lines of OBJ and MTL files

---
 src/objloader/objloader_simple.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index b643b22..0fb91c7 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -27,7 +27,7 @@ public:
         msmap_.clear();
 
         LM_INFO("Loading OBJ file [path='{}']", fs::path(path).filename().string());
-        char l[4096], name[256];
+        std::string l, name;
         std::ifstream f(path);
         if (!f) {
             LM_ERROR("Missing OBJ file [path='{}']", path);
@@ -48,8 +48,8 @@ public:
         int curr_material_index = 0;
 
         // Parse .obj file line by line
-        while (f.getline(l, 4096)) {
-            char *t = l;
+        while (std::getline(f, l)) {
+            char *t = l.data();
             skip_spaces(t);
 
             // ----- Parse vertex position
@@ -220,13 +220,9 @@ private:
     }
 
     // Parses a string
-    template <int N>
-    void next_string(char *&t, char (&name)[N]) {
-        #if LM_COMPILER_MSVC
-        sscanf_s(t, "%s", name, N);
-        #else
-        sscanf(t, "%s", name);
-        #endif
+    void next_string(char *&t, std::string& name) {
+        skip_spaces(t);
+        name.assign(t, strcspn(t, " \t\r\n\v\f"));
     };
 
     // Parses .mtl file
@@ -237,9 +233,9 @@ private:
             LM_ERROR("Missing MLT file [path='{}']", p);
             return false;
         }
-        char l[4096], name[256];
-        while (f.getline(l, 4096)) {
-            auto *t = l;
+        std::string l, name;
+        while (std::getline(f, l)) {
+            auto *t = l.data();
             skip_spaces(t);
             if (command(t, "newmtl", 6)) {
                 next_string(t += 7, name);
-- 
2.43.0


From d06a966a141c42032d7f88cd04fd6dd29b41ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 52/96] fix: polygons with more than four vertices in OBJ files

---
 src/objloader/objloader_simple.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 0fb91c7..78055a0 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -91,17 +91,22 @@ public:
                 auto& primitive = primitives.back();
 
                 // Parse face indices
-                OBJMeshFaceIndex is[4];
-                for (auto& i : is) {
-                    if (eol(t[0])) {
-                        continue;
+                std::vector<OBJMeshFaceIndex> is;
+                while (true) {
+                    skip_spaces(t);
+                    if (eol(t[0]) || t[0] == '\r' || t[0] == '#') {
+                        break;
                     }
-                    i = parse_indices(geo, t);
+                    is.push_back(parse_indices(geo, t));
                 }
-                primitive.fs.insert(primitive.fs.end(), {is[0], is[1], is[2]});
-                if (is[3].p != -1) {
-                    // Triangulate quad
-                    primitive.fs.insert(primitive.fs.end(), {is[0], is[2], is[3]});
+                if (is.size() < 3) {
+                    LM_ERROR("Invalid face [num_vertices='{}']", is.size());
+                    return false;
+                }
+
+                // Triangulate polygon
+                for (size_t i = 1; i + 1 < is.size(); i++) {
+                    primitive.fs.insert(primitive.fs.end(), {is[0], is[i], is[i+1]});
                 }
             }
             
-- 
2.43.0


From b6062bd48d18c71f7c546c7d82b9939772b8b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 53/96] fix: groups without faces in OBJ files

---
 src/objloader/objloader_simple.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 78055a0..1cebb83 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -159,6 +159,10 @@ public:
 
         // Process parsed primitives
         for (const auto& primitive : primitives) {
+            // Skip groups without faces
+            if (primitive.fs.empty()) {
+                continue;
+            }
             if (!process_mesh(primitive.fs, ms_.at(primitive.material_index))) {
                 return false;
             }
-- 
2.43.0


From 6f0342bc75df1efcf7af334aa90ebe2522e79a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 54/96] fix: read errors of OBJ files were ignored

---
 src/objloader/objloader_simple.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index 1cebb83..1910e3e 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -145,6 +145,11 @@ public:
             }
         }
 
+        if (f.bad()) {
+            LM_ERROR("Failed to read OBJ file [path='{}']", path);
+            return false;
+        }
+
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
             ms_.push_back({ "default", -1, Vec3(1) });
-- 
2.43.0


From 2a76b3e69adc069ffe1aed374954df12f9ac14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 55/96] fix: out-of-bounds accesses on invalid face indices of
 OBJ files

---
 src/objloader/objloader.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/objloader/objloader.cpp b/src/objloader/objloader.cpp
index 09b525b..f155851 100644
--- a/src/objloader/objloader.cpp
+++ b/src/objloader/objloader.cpp
@@ -5,6 +5,7 @@
 
 #include <pch.h>
 #include <lm/objloader.h>
+#include <lm/logger.h>
 
 LM_NAMESPACE_BEGIN(LM_NAMESPACE::objloader)
 
@@ -23,7 +24,21 @@ LM_PUBLIC_API bool load(
     OBJSurfaceGeometry& geo,
     const ProcessMeshFunc& process_mesh,
     const ProcessMaterialFunc& process_material) {
-    return Instance::get().load(path, geo, process_mesh, process_material);
+    // Reject the faces with invalid indices
+    const auto valid = [](int i, size_t n, bool optional) {
+        return (optional && i == -1) || (0 <= i && i < int(n));
+    };
+    return Instance::get().load(path, geo,
+        [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
+            for (const auto& f : fs) {
+                if (!valid(f.p, geo.ps.size(), false) || !valid(f.t, geo.ts.size(), true) || !valid(f.n, geo.ns.size(), true)) {
+                    LM_ERROR("Invalid face index [path='{}', p='{}', t='{}', n='{}']", path, f.p, f.t, f.n);
+                    return false;
+                }
+            }
+            return process_mesh(fs, m);
+        },
+        process_material);
 }
 
 LM_NAMESPACE_END(LM_NAMESPACE::objloader)
-- 
2.43.0


From b4f260f8621423fd5cf52f1165bf0c528bea70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 56/96] fix: out-of-bounds accesses on faces where some
 vertices lack attributes

---
 src/mesh/mesh_wavefrontobj.cpp   | 4 ++--
 src/model/model_wavefrontobj.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh_wavefrontobj.cpp b/src/mesh/mesh_wavefrontobj.cpp
index ebff0dc..380aa4d 100644
--- a/src/mesh/mesh_wavefrontobj.cpp
+++ b/src/mesh/mesh_wavefrontobj.cpp
@@ -77,13 +77,13 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0 ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 0ab9bdd..4de08ea 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -308,13 +308,13 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0 ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
-- 
2.43.0


From 69deaae502ce73b282000bd3f39bf8a14135e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 57/96] fix: faces lost where the material changes with
 tinyobjloader

---
 .../objloader_tinyobjloader.cpp                   | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 9483371..4e1e065 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -126,14 +126,13 @@ public:
                     fs.clear();
                     prev_material_id = curr_material_id;
                 }
-                else {
-                    const auto& i1 = shape.mesh.indices[fi*3];
-                    const auto& i2 = shape.mesh.indices[fi*3+1];
-                    const auto& i3 = shape.mesh.indices[fi*3+2];
-                    fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
-                    fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
-                    fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
-                }
+
+                const auto& i1 = shape.mesh.indices[fi*3];
+                const auto& i2 = shape.mesh.indices[fi*3+1];
+                const auto& i3 = shape.mesh.indices[fi*3+2];
+                fs.push_back({ i1.vertex_index, i1.texcoord_index, i1.normal_index });
+                fs.push_back({ i2.vertex_index, i2.texcoord_index, i2.normal_index });
+                fs.push_back({ i3.vertex_index, i3.texcoord_index, i3.normal_index });
             }
             if (!fs.empty()) {
                 if (!process_mesh(fs, our_mat_params[prev_material_id < 0 ? 0 : prev_material_id])) {
-- 
2.43.0


From 003054b0f6395e1e79397dff464f68fb98ad4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 58/96] fix: undefined parameters of the default material of
 tinyobjloader

---
 plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 4e1e065..7cb7dc0 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -69,7 +69,7 @@ public:
         std::vector<MTLMatParams> our_mat_params;
         for (const auto& mat : materials) {
             // Convert to our type
-            MTLMatParams p;
+            MTLMatParams p{};
             p.name = mat.name;
             p.illum = mat.illum;
             p.Kd = Vec3(mat.diffuse[0], mat.diffuse[1], mat.diffuse[2]);
@@ -91,7 +91,7 @@ public:
 
         // Default material if OBJ has no corresponding MTL file
         if (materials.empty()) {
-            MTLMatParams p;
+            MTLMatParams p{};
             p.name = "default";
             p.illum = -1;
             p.Kd = Vec3(1);
-- 
2.43.0


From 6a7fc7542bbe9ebe2f40e12ba1bc1228676cd0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 59/96] fix: files without vertices or faces with tinyobjloader

---
 .../objloader_tinyobjloader.cpp                     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
index 7cb7dc0..f0c69ab 100644
--- a/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
+++ b/plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp
@@ -48,10 +48,12 @@ public:
 
         // Copy vertex data
         // This incurs temporal double allocation of the vertex buffers.
-        geo.ps.assign(attrib.vertices.size() / 3, Vec3());
-        memcpy(&geo.ps[0].x, &attrib.vertices[0], sizeof(Float) * attrib.vertices.size());
-        attrib.vertices.clear();
-        attrib.vertices.shrink_to_fit();
+        if (!attrib.vertices.empty()) {
+            geo.ps.assign(attrib.vertices.size() / 3, Vec3());
+            memcpy(&geo.ps[0].x, &attrib.vertices[0], sizeof(Float) * attrib.vertices.size());
+            attrib.vertices.clear();
+            attrib.vertices.shrink_to_fit();
+        }
         if (!attrib.normals.empty()) {
             geo.ns.assign(attrib.normals.size() / 3, Vec3());
             memcpy(&geo.ns[0].x, &attrib.normals[0], sizeof(Float) * attrib.normals.size());
@@ -108,6 +110,9 @@ public:
             // because our framework doesn't support per-face material.
             fs.clear();
             const int num_faces = int(shape.mesh.num_face_vertices.size());
+            if (num_faces == 0) {
+                continue;
+            }
             int prev_material_id = shape.mesh.material_ids[0];
             for (int fi = 0; fi < num_faces; fi++) {
                 // Assume the mesh is triangulated
-- 
2.43.0


From 8b74f063cf42bce92995fa03e491499d1940c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:40 +0000
Subject: [PATCH 60/96] fix: ambiguous names of the underlying assets of OBJ
 models

The names of the materials and of the textures were used as they are as parts of
the locators. A period in a name (e.g., Material.001 or wood.v2.png) made the
locators unresolvable, textures of the same stem were taken for the same texture,
and a material could be confused with a mesh of the same name.
---
 src/model/model_wavefrontobj.cpp | 45 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 4de08ea..7bed567 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -66,6 +66,16 @@ public:
         }
     }
 
+private:
+    // Name of an underlying asset which can be a part of a locator
+    std::string asset_name(std::string name) const {
+        std::replace(name.begin(), name.end(), '.', '_');
+        while (assets_map_.find(name) != assets_map_.end()) {
+            name += '_';
+        }
+        return name;
+    }
+
 public:
     virtual Component* underlying(const std::string& name) const override {
         const auto it = assets_map_.find(name);
@@ -74,11 +84,13 @@ public:
 
 	virtual void construct(const Json& prop) override {
         const std::string path = json::value<std::string>(prop, "path");
+        std::unordered_map<std::string, int> materials;         // Material name to asset index
+        std::unordered_map<std::string, std::string> textures;  // Texture path to asset name
         const bool result = objloader::load(path, geo_,
             // Process mesh
             [&](const OBJMeshFace& fs, const MTLMatParams& m) -> bool {
                 // Create mesh
-                const std::string mesh_name = fmt::format("mesh_{}", assets_.size());
+                const std::string mesh_name = asset_name(fmt::format("mesh_{}", assets_.size()));
                 auto mesh = comp::create<Mesh>(
                     "mesh::wavefrontobj_ref", make_loc(mesh_name),
                     json::merge(prop, {
@@ -96,7 +108,7 @@ public:
                 int light_index = -1;
                 if (glm::compMax(m.Ke) > 0_f) {
                     const auto light_impl_name = json::value<std::string>(prop, "light", "light::area");
-                    const auto light_name = mesh_name + "_light";
+                    const auto light_name = asset_name(mesh_name + "_light");
                     auto light = comp::create<Light>(light_impl_name, make_loc(light_name), {
                         {"Ke", m.Ke},
                         {"mesh", make_loc(mesh_name)}
@@ -110,7 +122,7 @@ public:
                 }
 
                 // Create mesh group
-                groups_.push_back({ assets_map_[mesh_name], assets_map_[m.name], light_index });
+                groups_.push_back({ assets_map_[mesh_name], materials.at(m.name), light_index });
 
                 return true;
             },
@@ -119,13 +131,15 @@ public:
             [&](const MTLMatParams& m) -> bool {
                 // Load user-specified material if given
                 if (const auto it = prop.find("base_material"); it != prop.end()) {
-                    auto mat = comp::create<Material>("material::proxy", make_loc(m.name), {
+                    const auto mat_name = asset_name(m.name);
+                    auto mat = comp::create<Material>("material::proxy", make_loc(mat_name), {
                         {"ref", *it}
                     });
                     if (!mat) {
                         return false;
                     }
-                    assets_map_[m.name] = int(assets_.size());
+                    materials[m.name] = int(assets_.size());
+                    assets_map_[mat_name] = int(assets_.size());
                     assets_.push_back(std::move(mat));
                     return true;
                 }
@@ -134,11 +148,12 @@ public:
                 std::string mapKd_loc;
                 if (!m.mapKd.empty()) {
                     // Use texture_<filename> as an identifier
-                    const auto id = "texture_" + fs::path(m.mapKd).stem().string();
+                    auto& id = textures[m.mapKd];
 
                     // Check if already loaded
-                    if (auto it = assets_map_.find(id); it == assets_map_.end()) {
+                    if (id.empty()) {
                         // If not loaded, load the texture
+                        id = asset_name("texture_" + fs::path(m.mapKd).stem().string());
                         const auto textureAssetName = json::value<std::string>(prop, "texture", "texture::bitmap");
                         auto texture = comp::create<Texture>(textureAssetName, make_loc(id), {
                             {"path", (fs::path(path).remove_filename()/m.mapKd).string()}
@@ -155,23 +170,24 @@ public:
                 }
 
                 // Load material
+                const auto mat_name = asset_name(m.name);
                 Ptr<Material> mat;
                 const bool skip_specular_mat = json::value<bool>(prop, "skip_specular_mat", false);
                 if (m.illum == 5 || m.illum == 7) {
                     if (skip_specular_mat) {
                         // Skip specular material. Use black material.
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), { {"Kd", Vec3(0_f)} });
+                            "material::diffuse", make_loc(mat_name), { {"Kd", Vec3(0_f)} });
                     }
                     else if (m.illum == 7) {
                         // Glass
                         mat = comp::create<Material>(
-                            "material::glass", make_loc(m.name), { {"Ni", m.Ni} });
+                            "material::glass", make_loc(mat_name), { {"Ni", m.Ni} });
                     }
                     else if (m.illum == 5) {
                         // Mirror
                         mat = comp::create<Material>(
-                            "material::mirror", make_loc(m.name), {});
+                            "material::mirror", make_loc(mat_name), {});
                     }
                 }
                 else {
@@ -180,7 +196,7 @@ public:
                     if (math::is_zero(m.Ks)) {
                         // Diffuse material
                         mat = comp::create<Material>(
-                            "material::diffuse", make_loc(m.name), {
+                            "material::diffuse", make_loc(mat_name), {
                                 {"Kd", m.Kd},
                                 {"mapKd", mapKd_loc}
                             });
@@ -190,7 +206,7 @@ public:
                         const auto r = 2_f / (2_f + m.Ns);
                         const auto as = math::safe_sqrt(1_f - m.an * .9_f);
                         mat = comp::create<Material>(
-                            "material::glossy", make_loc(m.name), {
+                            "material::glossy", make_loc(mat_name), {
                                 {"Ks", m.Ks},
                                 {"ax", std::max(1e-3_f, r / as)},
                                 {"ay", std::max(1e-3_f, r * as)}
@@ -205,7 +221,7 @@ public:
                     // Default mixture material of D and G
                     mat = comp::create<Material>(
                         "material::mixture_wavefrontobj",
-                        make_loc(m.name),
+                        make_loc(mat_name),
                         {
                             {"Kd", m.Kd},
                             {"mapKd", mapKd_loc},
@@ -219,7 +235,8 @@ public:
                 if (!mat) {
                     return false;
                 }
-                assets_map_[m.name] = int(assets_.size());
+                materials[m.name] = int(assets_.size());
+                assets_map_[mat_name] = int(assets_.size());
                 assets_.push_back(std::move(mat));
 
                 return true;
-- 
2.43.0


From e2727b6d89bbfa80225a3a768a71557ac46f2b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:40 +0000
Subject: [PATCH 61/96] fix: out-of-bounds accesses on invalid data of raw
 meshes

---
 src/mesh/mesh_raw.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_raw.cpp b/src/mesh/mesh_raw.cpp
index 190c4a0..f5ef64e 100644
--- a/src/mesh/mesh_raw.cpp
+++ b/src/mesh/mesh_raw.cpp
@@ -48,22 +48,41 @@ public:
 
 public:
     virtual void construct(const Json& prop) override {
-        const auto& ps = prop["ps"];
+        // Get an array whose size is multiple of n
+        const auto array = [](const Json& j, const char* name, size_t n) -> const Json& {
+            const auto it = j.find(name);
+            if (it == j.end() || !it->is_array() || it->size() % n != 0) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid array of mesh [name='{}']", name);
+            }
+            return *it;
+        };
+        const auto& ps = array(prop, "ps", 3);
         for (int i = 0; i < ps.size(); i+=3) {
             ps_.push_back(Vec3(ps[i],ps[i+1],ps[i+2]));
         }
-        const auto& ns = prop["ns"];
+        const auto& ns = array(prop, "ns", 3);
         for (int i = 0; i < ns.size(); i+=3) {
             ns_.push_back(Vec3(ns[i],ns[i+1],ns[i+2]));
         }
-        const auto& ts = prop["ts"];
+        const auto& ts = array(prop, "ts", 2);
         for (int i = 0; i < ts.size(); i+=2) {
             ts_.push_back(Vec2(ts[i],ts[i+1]));
         }
-        const auto& fs = prop["fs"];
-        const int fs_size = int(fs["p"].size());
+        const auto fs = json::value<Json>(prop, "fs");
+        const auto& fs_p = array(fs, "p", 3);
+        const auto& fs_t = array(fs, "t", 3);
+        const auto& fs_n = array(fs, "n", 3);
+        if (fs_t.size() != fs_p.size() || fs_n.size() != fs_p.size()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Inconsistent number of indices");
+        }
+        const int fs_size = int(fs_p.size());
         for (int i = 0; i < fs_size; i++) {
-            fs_.push_back(MeshFaceIndex{ fs["p"][i],fs["t"][i],fs["n"][i] });
+            const MeshFaceIndex f{ fs_p[i],fs_t[i],fs_n[i] };
+            const auto valid = [](int i, size_t n) { return 0 <= i && i < int(n); };
+            if (!valid(f.p, ps_.size()) || !valid(f.t, ts_.size()) || !valid(f.n, ns_.size())) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Index out of range [p='{}', t='{}', n='{}']", f.p, f.t, f.n);
+            }
+            fs_.push_back(f);
         }
     }
 
-- 
2.43.0


From b385385823f7aa0ba86a00723ebc8c779ff43a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:30 +0000
Subject: [PATCH 62/96] fix: bound of gaussian volume cuts off the density for
 large sigma

---
 src/volume/volume_gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/volume/volume_gaussian.cpp b/src/volume/volume_gaussian.cpp
index 1fc4cee..76ba5d0 100644
--- a/src/volume/volume_gaussian.cpp
+++ b/src/volume/volume_gaussian.cpp
@@ -51,7 +51,7 @@ public:
     Bound computeBound(const Vec3 &sigma) const {
         auto compAC = [&](Float s) -> Float {
             //the first 2._f is empirical: when scalar is large, Eps is not enough
-            return 2._f*sqrt(-2._f*s*std::log(Eps)); };
+            return 2._f*sqrt(-2._f*s*s*std::log(Eps)); };
         Float ac = std::max(std::max(compAC(sigma.x), compAC(sigma.y)), compAC(sigma.z));
         Bound b;
         b.max = pos_ + ac;
-- 
2.43.0


From 4a0b4b2254e6cb5eaa714a5867f1697e0387f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:30 +0000
Subject: [PATCH 63/96] fix: heterogeneous medium accepts volumes without
 density or albedo

---
 src/medium/medium_heterogeneous.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 156339c..90b1ca3 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -45,6 +45,12 @@ public:
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
         volme_albedo_ = json::comp_ref<Volume>(prop, "volume_albedo");
         phase_ = json::comp_ref<Phase>(prop, "phase");
+        if (!volume_density_->has_scalar()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "'volume_density' has no scalar component.");
+        }
+        if (!volme_albedo_->has_color()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "'volume_albedo' has no color component.");
+        }
     }
 
     virtual std::optional<DistanceSample> sample_distance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-- 
2.43.0


From 7d3302a1c1c362f3aab03d4a1f1470dacdd990a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 64/96] fix: weight of positions sampled on lights ignores the
 light selection

---
 include/lm/path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index d6e1a5b..4b28935 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -293,7 +293,7 @@ static std::optional<PositionSample> sample_position(const PositionSampleU& u, c
                 light_primitive_index.index,
                 s->geom
             ),
-            s->weight
+            s->weight / p_sel
         };
     }
     LM_UNREACHABLE_RETURN();
-- 
2.43.0


From cb0181f36b6c3197146ea4e910ff48436ec0d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:40 +0000
Subject: [PATCH 65/96] fix: null dereference when assets are used before
 initialisation

---
 src/user.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/user.cpp b/src/user.cpp
index 9b8025b..2213559 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -50,6 +50,14 @@ private:
 			"Lightmetrica is not initialize. Call lm::init() function.");
 	}
 
+	// Check if the root asset group is available.
+	void check_assets() const {
+		if (!root_assets_) {
+			LM_THROW_EXCEPTION(Error::Uninitialized,
+				"Lightmetrica is not initialize. Call lm::init() function.");
+		}
+	}
+
 public:
     void init(const Json&) {
         exception::init();
@@ -93,6 +101,7 @@ public:
     }
 
     AssetGroup* assets() {
+        check_assets();
         return root_assets_.get();
     }
 
@@ -102,6 +111,7 @@ public:
     }
 
     void save_state_to_file(const std::string& path) {
+        check_assets();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
         os.flush();
@@ -111,6 +121,7 @@ public:
     }
 
     void load_state_from_file(const std::string& path) {
+        check_assets();
         std::ifstream is(path, std::ios::in | std::ios::binary);
         // Keep the current assets if the loading fails
         const auto root_loc = root_assets_->loc();
-- 
2.43.0


From b7088de7912202ed0c12b96b2c8db87965be05d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:40 +0000
Subject: [PATCH 66/96] fix: renderers accept unknown schedulers and crash when
 rendering

---
 src/renderer/renderer_bdpt.cpp    | 4 ++++
 src/renderer/renderer_bdptopt.cpp | 4 ++++
 src/renderer/renderer_lt.cpp      | 4 ++++
 src/renderer/renderer_pt.cpp      | 4 ++++
 src/renderer/renderer_volpt.cpp   | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 81a8578..192984d 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -73,6 +73,10 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument,
+                "Unknown scheduler [scheduler='{}']", sched_name);
+        }
     }
 };
 
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index 7d3469f..74a9ccc 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -454,6 +454,10 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument,
+                "Unknown scheduler [scheduler='{}']", sched_name);
+        }
         #if BDPT_PER_STRATEGY_FILM
         const auto size = film_->size();
         for (int k = 2; k <= max_verts_; k++) {
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index 82507d4..7eb3cdf 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -53,6 +53,10 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument,
+                "Unknown scheduler [scheduler='{}']", sched_name);
+        }
     }
 
     virtual Json render() const override {
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 6241deb..5479c5f 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -89,6 +89,10 @@ public:
                 LM_THROW_EXCEPTION(Error::InvalidArgument,
                     "Unknown sampling mode of primary rays [primary_ray_sampling_mode='{}']", s);
             }
+            if (!sched_) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument,
+                    "Unknown scheduler [scheduler='{}']", name);
+            }
         }
     }
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 18cc4b1..4e17ed7 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -59,6 +59,10 @@ public:
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spp::" + sched_name, make_loc("scheduler"), prop);
         #endif
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument,
+                "Unknown scheduler [scheduler='{}']", sched_name);
+        }
     }
 };
 
-- 
2.43.0


From f821804056b5aeb2a274ad18d3812b83e2b2c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:40 +0000
Subject: [PATCH 67/96] fix: out-of-bounds access when positional arguments are
 missing

---
 include/lm/json.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lm/json.h b/include/lm/json.h
index 4e84ed0..e60c8fc 100644
--- a/include/lm/json.h
+++ b/include/lm/json.h
@@ -176,6 +176,10 @@ LM_INLINE Json merge(const Json& j1, const Json& j2) {
 */
 template <size_t N>
 Json parse_positional_args(int argc, char** argv, const std::string& temp) {
+    if (argc < 0 || static_cast<size_t>(argc) < N + 1) {
+        LM_THROW_EXCEPTION(Error::InvalidArgument,
+            "Insufficient number of arguments [expected={}, actual={}]", N, argc - 1);
+    }
     return Json::parse(detail::format_with_string_vector<N>(temp, { argv + 1, argv + argc }));
 }
 
-- 
2.43.0


From de668d9b2eb98df011b1794a396eb8b01ffee352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 68/96] fix: null dereference when printing the asset tree
 before initialisation

---
 src/debug.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.cpp b/src/debug.cpp
index 43faa57..0425684 100644
--- a/src/debug.cpp
+++ b/src/debug.cpp
@@ -115,6 +115,10 @@ LM_PUBLIC_API void print_asset_tree(bool visualize_weak_refs) {
     LM_INFO("$.assets");
     LM_INDENT();
     auto* assets = lm::comp::get<Component>("$.assets");
+    if (!assets) {
+        LM_THROW_EXCEPTION(Error::Uninitialized,
+            "Lightmetrica is not initialize. Call lm::init() function.");
+    }
     assets->foreach_underlying(std::bind(visitor, _1, _2, "$.assets"));
 }
 
-- 
2.43.0


From 6e244d627e487abb1ebc7a0a8b966099cc19ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 69/96] fix: integers beyond 32 bits are refused or truncated
 by the Python binding

---
 include/lm/pylm.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 4bb2470..b236429 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -40,7 +40,18 @@ public:
             value = src.cast<double>();
         }
         else if (isinstance<int_>(src)) {
-            value = src.cast<int>();
+            // Use 64-bit integer, signed if possible
+            make_caster<std::int64_t> iconv;
+            make_caster<std::uint64_t> uconv;
+            if (iconv.load(src, convert)) {
+                value = cast_op<std::int64_t>(iconv);
+            }
+            else if (uconv.load(src, convert)) {
+                value = cast_op<std::uint64_t>(uconv);
+            }
+            else {
+                return false;
+            }
         }
         else if (isinstance<str>(src)) {
             value = src.cast<std::string>();
@@ -104,9 +115,11 @@ public:
             case value_t::number_float: {
                 return cast_to_python_object<double>(src, policy, std::move(parent));
             }
-            case value_t::number_integer: { [[fallthrough]]; }
+            case value_t::number_integer: {
+                return cast_to_python_object<std::int64_t>(src, policy, std::move(parent));
+            }
             case value_t::number_unsigned: {
-                return cast_to_python_object<int>(src, policy, std::move(parent));
+                return cast_to_python_object<std::uint64_t>(src, policy, std::move(parent));
             }
             case value_t::string: {
                 return cast_to_python_object<std::string>(src, policy, std::move(parent));
-- 
2.43.0


From 3a9b44c448dc942ce276168b9b75fe0e580cbee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 70/96] fix: arbitrary bound objects are interpreted as
 components in the conversion to JSON

---
 include/lm/pylm.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index b236429..8892492 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -81,20 +81,12 @@ public:
                 value.push_back(cast_op<lm::Json&&>(std::move(vconv)));
             }
         }
+        else if (isinstance<lm::Component>(src)) {
+            // Extranct the locator of the instance
+            value = src.cast<lm::Component*>()->loc();
+        }
         else {
-            // Extract underlying C++ type
-            // Check if the underlying type is registered to pybind,
-            // and the number of base class is one assuming multiple inheritance is not used.
-            auto& bases = all_type_info((PyTypeObject*)src.get_type().ptr());
-            if (bases.size() == 1) {
-                void* ptr = values_and_holders(reinterpret_cast<instance*>(src.ptr())).begin()->value_ptr();
-                auto* comp = static_cast<lm::Component*>(ptr);
-                // Extranct the locator of the instance
-                value = comp->loc();
-                return true;
-            }
-
-            LM_UNREACHABLE();
+            // Unsupported type
             return false;
         }
         return true;
-- 
2.43.0


From 9eb352a8af3122d73d4bf2b36b5f6f21e425907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 71/96] fix: size and strides of numpy arrays are ignored in
 the conversion to vectors and matrices

---
 include/lm/pylm.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 8892492..bb62990 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -194,13 +194,15 @@ struct type_caster<glm::vec<N, T, Q>> {
             return false;
         }
 
-        // Check dimension
-        if (buf.ndim() != 1) {
+        // Check dimension and number of elements
+        if (buf.ndim() != 1 || buf.shape(0) != N) {
             return false;
         }
 
-        // Copy values
-        memcpy(&value.data, buf.data(), N * sizeof(T));
+        // Copy values. Note that the elements might not be contiguous.
+        for (int i = 0; i < N; i++) {
+            memcpy(&value[i], buf.data(i), sizeof(T));
+        }
 
         return true;
     }
@@ -252,17 +254,18 @@ struct type_caster<glm::mat<C, R, T, Q>> {
             return false;
         }
 
-        // Check dimension
-        if (buf.ndim() != 2) {
+        // Check dimension and number of elements
+        if (buf.ndim() != 2 || buf.shape(0) != R || buf.shape(1) != C) {
             return false;
         }
 
-        // Copy values
-        memcpy(&value[0].data, buf.data(), C * R * sizeof(T));
-
-        // Transpose the copied values because
-        // glm is column major on the other hand numpy is row major.
-        value = glm::transpose(value);
+        // Copy values. Note that the elements might not be contiguous.
+        // glm is column major on the other hand numpy is indexed by (row, column).
+        for (int i = 0; i < R; i++) {
+            for (int j = 0; j < C; j++) {
+                memcpy(&value[j][i], buf.data(i, j), sizeof(T));
+            }
+        }
 
         return true;
     }
-- 
2.43.0


From 6fe8607b0d7a50b508896deb38133c00a221d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 72/96] fix: max_scalar of volumes in Python calls has_scalar

---
 src/pylm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index bec63f4..a281996 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -973,7 +973,7 @@ static void bind_volume(pybind11::module& m) {
             PYBIND11_OVERLOAD_PURE(bool, Volume, has_scalar);
         }
         virtual Float max_scalar() const override {
-            PYBIND11_OVERLOAD_PURE(Float, Volume, has_scalar);
+            PYBIND11_OVERLOAD_PURE(Float, Volume, max_scalar);
         }
         virtual Float eval_scalar(Vec3 p) const override {
             PYBIND11_OVERLOAD(Float, Volume, eval_scalar, p);
-- 
2.43.0


From f1e0fae284f6ce1f255da7179f94eb9792f701cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 73/96] fix: media in Python receive copies of the random
 number generator

---
 src/pylm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index a281996..2d56b47 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -939,10 +939,10 @@ static void bind_medium(pybind11::module& m) {
             PYBIND11_OVERLOAD(void, Medium, construct, prop);
         }
         virtual std::optional<DistanceSample> sample_distance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-            PYBIND11_OVERLOAD_PURE(std::optional<DistanceSample>, Medium, sample_distance, rng, ray, tmin, tmax);
+            PYBIND11_OVERLOAD_PURE(std::optional<DistanceSample>, Medium, sample_distance, &rng, ray, tmin, tmax);
         }
         virtual Vec3 eval_transmittance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-            PYBIND11_OVERLOAD_PURE(Vec3, Medium, eval_transmittance, rng, ray, tmin, tmax);
+            PYBIND11_OVERLOAD_PURE(Vec3, Medium, eval_transmittance, &rng, ray, tmin, tmax);
         }
         virtual bool is_emitter() const override {
             PYBIND11_OVERLOAD_PURE(bool, Medium, is_emitter);
-- 
2.43.0


From 83c586df76978c9cc68820f4cfaaeead9f86b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 74/96] fix: acceleration structures in Python cannot be built
 with scenes unknown to Python

---
 src/pylm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index 2d56b47..57fed12 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -741,7 +741,7 @@ static void bind_accel(pybind11::module& m) {
             PYBIND11_OVERLOAD(void, Accel, construct, prop);
         }
         virtual void build(const Scene& scene) override {
-            PYBIND11_OVERLOAD_PURE(void, Accel, build, scene);
+            PYBIND11_OVERLOAD_PURE(void, Accel, build, &scene);
         }
         virtual std::optional<Hit> intersect(Ray ray, Float tmin, Float tmax) const override {
             PYBIND11_OVERLOAD_PURE(std::optional<Hit>, Accel, intersect, ray, tmin, tmax);
-- 
2.43.0


From 092212ae09de9d42c083f2143af8087e84df51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 75/96] fix: scene nodes in Python dangle after other nodes are
 created

---
 src/pylm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index 57fed12..f546589 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -695,7 +695,7 @@ static void bind_scene(pybind11::module& m) {
         })
         .def("traverse_primitive_nodes", &Scene::traverse_primitive_nodes)
         .def("visit_node", &Scene::visit_node)
-        .def("node_at", &Scene::node_at, pybind11::return_value_policy::reference)
+        .def("node_at", &Scene::node_at, pybind11::return_value_policy::copy)
         .def("num_nodes", &Scene::num_nodes)
         .def("num_lights", &Scene::num_lights)
         .def("camera_node", &Scene::camera_node)
-- 
2.43.0


From de386d661eafee3880ae029c082a5fcf8107e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 76/96] fix: failure to write a file is not reported by
 save_to_file in Python

---
 src/pylm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index f546589..188fc8b 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -153,6 +153,10 @@ static void bind_component(pybind11::module& m) {
         .def("save_to_file", [](Component* self, const std::string& path) {
             std::ofstream os(path, std::ios::out | std::ios::binary);
             serial::save_comp_owned(os, self, self->loc());
+            os.flush();
+            if (!os) {
+                LM_THROW_EXCEPTION(Error::IOError, "Failed to save a component [path='{}']", path);
+            }
         })
         .PYLM_DEF_COMP_BIND(Component);
 
-- 
2.43.0


From b3e7b4a6feb253ece4597220ed3e2333587c6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:47 +0000
Subject: [PATCH 77/96] fix: crash at exit when Python objects are still
 referenced

---
 src/pylm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index 188fc8b..85f76ce 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -1233,6 +1233,14 @@ PYBIND11_MODULE(pylm, m) {
     bind_light(m);
     bind_asset_group(m);
     bind_user(m);
+
+    // Release the references to Python objects before the interpreter is finalized
+    pybind11::module::import("atexit").attr("register")(pybind11::cpp_function([]() {
+        debug::reg_on_poll({});
+        reset();
+        progress::shutdown();
+        log::shutdown();
+    }));
 }
 
 LM_NAMESPACE_END(LM_NAMESPACE)
-- 
2.43.0


From c3f68f38f4662afdac51bc8543961776e3d9ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:47 +0000
Subject: [PATCH 78/96] fix: registered_components calls a missing function

---
 lightmetrica/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightmetrica/__init__.py b/lightmetrica/__init__.py
index 2e9700d..4a9ff91 100644
--- a/lightmetrica/__init__.py
+++ b/lightmetrica/__init__.py
@@ -30,5 +30,5 @@ def registered_components():
     comps = []
     def print_name(name):
         comps.append(name)
-    comp.foreachRegistered(print_name)
+    comp.foreach_registered(print_name)
     return comps
\ No newline at end of file
-- 
2.43.0


From 25d469760d4e453071dd1505931da31fc77ddf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:47 +0000
Subject: [PATCH 79/96] fix: array creates arrays of the wrong floating point
 type

---
 lightmetrica/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightmetrica/__init__.py b/lightmetrica/__init__.py
index 4a9ff91..689961f 100644
--- a/lightmetrica/__init__.py
+++ b/lightmetrica/__init__.py
@@ -22,7 +22,7 @@ def pylm_component(name):
 
 def array(*args, **kwargs):
     """Numpy array with default floating point type of lightmetrica"""
-    kwargs.setdefault('dtype', np.float32)
+    kwargs.setdefault('dtype', np.float32 if FloatT == FloatType.Float32 else np.float64)
     return np.array(*args, **kwargs)
 
 def registered_components():
-- 
2.43.0


From 2453cf0c174b87ca76f7c32da5addb25ddeb4a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:53 +0000
Subject: [PATCH 80/96] fix: Python components created from Python are never
 released

---
 include/lm/pylm.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index bb62990..ac7c679 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -356,6 +356,10 @@ static pybind11::object cast_to_python_object(Component* inst) {
         // To avoid this, if the instance was created inside python, extract the underlying
         // python object and directly return it.
         auto instPy = std::any_cast<pybind11::object>(ownerRef);
+        // The returned object owns the instance from here. Holding the reference
+        // further would keep the object alive forever.
+        ownerRef.reset();
+        comp::detail::Access::release_func(inst) = nullptr;
         return instPy;
     }
     // Otherwise inst is C++ instance so return with standard pointer
@@ -386,9 +390,11 @@ static pybind11::object create_comp_wrap(const char* name, const char* loc, cons
     if (!inst) {
         return pybind11::object();
     }
+    // Release the instance if the construction fails
+    Component::Ptr<Component> p(inst);
     lm::comp::detail::Access::loc(inst) = loc;
     inst->construct(prop);
-    return cast_to_python_object<InterfaceT>(inst);
+    return cast_to_python_object<InterfaceT>(p.release());
 }
 
 /*!
-- 
2.43.0


From a1701278ebc312609ff73e438c6ff2f25181a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:13 +0000
Subject: [PATCH 81/96] fix: null dereference in renderer::bdptopt when the
 throughput is not finite

---
 src/renderer/renderer_bdptopt.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index 74a9ccc..daec62d 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -269,12 +269,19 @@ std::optional<Splat> connect_and_eval_contrb(const Scene* scene, const Path& sub
         const auto& vL = subpathE.vs[t-1];
         const auto spL = vL.sp.as_type(SceneInteraction::LightEndpoint);
         const auto Le = path::eval_contrb_direction(scene, spL, {}, vL.w_rev, {}, TransDir::LE, true);
+        if (math::is_zero(Le)) {
+            // Not an endpoint. Note the product can be non-zero if the throughput is not finite.
+            return {};
+        }
         C = Le * vL.alpha;
     }
     else if (t == 0) {
         const auto& vE = subpathL.vs[s-1];
         const auto spE = vE.sp.as_type(SceneInteraction::CameraEndpoint);
         const auto We = path::eval_contrb_direction(scene, spE, {}, vE.w_rev, {}, TransDir::EL, true);
+        if (math::is_zero(We)) {
+            return {};
+        }
         C = We * vE.alpha;
     }
     else {
-- 
2.43.0


From cb8eb282e6d83e8280d19c79ae873b337288e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:13 +0000
Subject: [PATCH 82/96] fix: out-of-bounds access with mixtures of no materials

---
 src/material/material_mixture.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/material/material_mixture.cpp b/src/material/material_mixture.cpp
index d933b7e..509f760 100644
--- a/src/material/material_mixture.cpp
+++ b/src/material/material_mixture.cpp
@@ -48,6 +48,9 @@ public:
 
 public:
     virtual void construct(const Json& prop) override {
+        if (prop.empty()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Mixture without materials");
+        }
         for (auto& entry : prop) {
             auto* mat = json::comp_ref<Material>(entry, "material");
             const auto weight = json::value<Float>(entry, "weight");
@@ -154,6 +157,10 @@ public:
 
 public:
     virtual void construct(const Json& prop) override {
+        if (prop.empty()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Mixture without materials");
+        }
+
         // Create default material group for non-specular materials
         material_groups_.emplace_back();
 
-- 
2.43.0


From 5662dd12477a504629d013bf37c0fe6122ee2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:13 +0000
Subject: [PATCH 83/96] fix: undefined pixel coordinates of raster positions
 that are not a number

---
 include/lm/film.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lm/film.h b/include/lm/film.h
index 3a7f6b2..6ced419 100644
--- a/include/lm/film.h
+++ b/include/lm/film.h
@@ -165,8 +165,9 @@ public:
     */
     glm::ivec2 raster_to_pixel(Vec2 rp) const {
         const auto [w, h] = size();
-        const int x = (int)glm::clamp(rp.x * Float(w), 0_f, Float(w-1));
-        const int y = (int)glm::clamp(rp.y * Float(h), 0_f, Float(h-1));
+        // The order of the arguments of max maps NaN to zero
+        const int x = (int)std::min(std::max(0_f, rp.x * Float(w)), Float(w-1));
+        const int y = (int)std::min(std::max(0_f, rp.y * Float(h)), Float(h-1));
         return {x, y};
     }
 
-- 
2.43.0


From 87ad7e70e94cab3b47be19fd993fa1e4fcc25687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:13 +0000
Subject: [PATCH 84/96] fix: out-of-bounds access with films of no pixels

---
 src/film/film_bitmap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index a81c864..b9f96f2 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -138,6 +138,9 @@ public:
         w_ = json::value<int>(prop, "w");
         h_ = json::value<int>(prop, "h");
         quality_ = json::value<int>(prop, "quality", 90);
+        if (w_ <= 0 || h_ <= 0) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid size of film [w={}, h={}]", w_, h_);
+        }
         data_.assign(w_*h_, {});
     }
 
-- 
2.43.0


From f4daad1d66cf928cbd4abf72f286f2f98802d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 85/96] fix: undefined behaviour of texture::bitmap with
 coordinates that are not a number

---
 src/texture/texture_bitmap.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index f3b1799..3f1908b 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -74,8 +74,9 @@ public:
     virtual Vec3 eval(Vec2 t) const override {
         const auto u = t.x - floor(t.x);
         const auto v = t.y - floor(t.y);
-        const int x = std::clamp(int(u * w_), 0, w_ - 1);
-        const int y = std::clamp(int(v * h_), 0, h_ - 1);
+        // The order of the arguments of max maps NaN to zero
+        const int x = int(std::min(std::max(0_f, u * w_), Float(w_ - 1)));
+        const int y = int(std::min(std::max(0_f, v * h_), Float(h_ - 1)));
         const int i = w_ * y + x;
         return color_at(i);
     }
@@ -88,8 +89,9 @@ public:
     virtual Float eval_alpha(Vec2 t) const override {
         const auto u = t.x - floor(t.x);
         const auto v = t.y - floor(t.y);
-        const int x = std::clamp(int(u * w_), 0, w_ - 1);
-        const int y = std::clamp(int(v * h_), 0, h_ - 1);
+        // The order of the arguments of max maps NaN to zero
+        const int x = int(std::min(std::max(0_f, u * w_), Float(w_ - 1)));
+        const int y = int(std::min(std::max(0_f, v * h_), Float(h_ - 1)));
         const int i = w_ * y + x;
         return data_[c_*i+c_-1];
     }
-- 
2.43.0


From de57f1b6ecb0fb8985965334e7565ee64be7037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 86/96] fix: out-of-bounds access in two-dimensional
 distributions outside of the domain

---
 include/lm/math.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lm/math.h b/include/lm/math.h
index f9da21a..7a8c474 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -419,6 +419,10 @@ struct Dist2 {
         \return Evaluated pmf.
     */
     Float pdf(Float u, Float v) const {
+        if (!(u >= 0_f && u <= 1_f && v >= 0_f && v <= 1_f)) {
+            // Outside of the domain or not a number
+            return 0_f;
+        }
         const int y = std::min(int(v * h), h - 1);
         return m.pmf(y) * ds[y].pmf(int(u * w)) * w * h;
     }
-- 
2.43.0


From 36f7f570e56c92f293304b929ae818648a2f00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 87/96] fix: endless loop in medium::heterogeneous when the
 range is not finite

---
 src/medium/medium_heterogeneous.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 90b1ca3..68e96e3 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -66,7 +66,7 @@ public:
         while (true) {
             // Sample a distance from the 'homogenized' volume
             t -= glm::log(1_f-rng.u()) * inv_max_density;
-            if (t >= tmax) {
+            if (!(t < tmax)) {
                 // Hit with boundary, use surface interaction
                 return {};
             }
@@ -105,7 +105,7 @@ public:
         const auto inv_max_density = 1_f / volume_density_->max_scalar();
         while (true) {
             t -= glm::log(1_f - rng.u()) * inv_max_density;
-            if (t >= tmax) {
+            if (!(t < tmax)) {
                 break;
             }
             const auto p = ray.o + ray.d*t;
-- 
2.43.0


From 92343f78ae0ef91aa6419599524c787c8b8d6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 88/96] fix: out-of-bounds access in bidirectional renderers
 with min_verts below two

---
 src/renderer/renderer_bdpt.cpp    | 3 ++-
 src/renderer/renderer_bdptopt.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 192984d..9ca761e 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -398,7 +398,8 @@ public:
             for (int s = 0; s <= nL; s++) {
                 for (int t = 0; t <= nE; t++) {
                     const int k = s + t;
-                    if (k < min_verts_ || max_verts_ < k) {
+                    // Note that a path has at least two vertices
+                    if (k < 2 || k < min_verts_ || max_verts_ < k) {
                         continue;
                     }
 
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index daec62d..ba10cf2 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -528,7 +528,8 @@ public:
             for (int s = 0; s <= nL; s++) {
                 for (int t = 0; t <= nE; t++) {
                     const int k = s + t;
-                    if (k < min_verts_ || max_verts_ < k) {
+                    // Note that a path has at least two vertices
+                    if (k < 2 || k < min_verts_ || max_verts_ < k) {
                         continue;
                     }
 
-- 
2.43.0


From 944925a5d17df387d1f9de88c289045efedbd942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 89/96] fix: out-of-bounds access with area lights on meshes of
 no triangles

---
 src/light/light_area.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index 5eeaf81..635e781 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -62,6 +62,10 @@ public:
         Ke_ = json::value<Vec3>(prop, "Ke");
         mesh_ = json::comp_ref<Mesh>(prop, "mesh");
         
+        if (mesh_->num_triangles() == 0) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Mesh of area light has no triangles");
+        }
+        
         // Construct CDF for surface sampling
         // Note we construct the CDF before transformation
         mesh_->foreach_triangle([&](int, const Mesh::Tri& tri) {
-- 
2.43.0


From 5579010f659183c45c57319cff2b6a02ab711811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 90/96] fix: undefined behaviour of volume::checker with bounds
 of no extent

---
 src/volume/volume_checker.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/volume/volume_checker.cpp b/src/volume/volume_checker.cpp
index 81516aa..73e3ba7 100644
--- a/src/volume/volume_checker.cpp
+++ b/src/volume/volume_checker.cpp
@@ -50,10 +50,10 @@ public:
 	virtual Float eval_scalar(Vec3 p) const override {
 		const auto Delta = .2_f;
 		const auto t = (p - bound_.min) / (bound_.max - bound_.min);
-		const auto x = int(t.x / Delta);
-		const auto y = int(t.y / Delta);
-		//const auto z = int(t.z / Delta);
-		return (x + y) % 2 == 0 ? 1_f : 0_f;
+		const auto x = std::trunc(t.x / Delta);
+		const auto y = std::trunc(t.y / Delta);
+		//const auto z = std::trunc(t.z / Delta);
+		return std::fmod(x + y, 2_f) == 0_f ? 1_f : 0_f;
 	}
 
 	virtual bool has_color() const override {
-- 
2.43.0


From 811e2f66426f44a5d017868ccd1e383b103a3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 91/96] fix: renderers use undefined raster positions for
 directions out of the view

---
 src/renderer/renderer_bdptopt.cpp | 15 ++++++++++-----
 src/renderer/renderer_pt.cpp      |  7 ++++++-
 src/renderer/renderer_volpt.cpp   | 14 ++++++++++++--
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index ba10cf2..7a0382d 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -300,22 +300,27 @@ std::optional<Splat> connect_and_eval_contrb(const Scene* scene, const Path& sub
     }
 
     // Raster position
-    Vec2 rp;
+    std::optional<Vec2> rp;
     if (t == 0) {
         const auto& vE = subpathL.vs[s-1];
-        rp = *path::raster_position(scene, vE.w_fwd);
+        rp = path::raster_position(scene, vE.w_fwd);
     }
     else if (t == 1) {
         const auto& vL = subpathL.vs[s-1];
         const auto& vE = subpathE.vs[0];
-        rp = *path::raster_position(scene, direction(&vE, &vL));
+        rp = path::raster_position(scene, direction(&vE, &vL));
     }
     else {
         const auto& vE = subpathE.vs[0];
-        rp = *path::raster_position(scene, vE.w_fwd);
+        rp = path::raster_position(scene, vE.w_fwd);
+    }
+
+    if (!rp) {
+        // The direction can be out of the frustum by numerical error
+        return {};
     }
 
-    return Splat{ C, rp };
+    return Splat{ C, *rp };
 }
 
 // Evaluate MIS weight
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 5479c5f..84c48c5 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -238,7 +238,12 @@ public:
 
                 // Compute and cache raster position
                 if (num_verts == 1) {
-                    raster_pos = *path::raster_position(scene_, s->wo);
+                    const auto rp = path::raster_position(scene_, s->wo);
+                    if (!rp) {
+                        // The direction can be out of the frustum by numerical error
+                        break;
+                    }
+                    raster_pos = *rp;
                 }
 
                 // --------------------------------------------------------------------------------
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4e17ed7..f850c40 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -139,7 +139,12 @@ public:
 
                 // Compute and cache raster position
                 if (num_verts == 1) {
-                    raster_pos = *path::raster_position(scene_, s->wo);
+                    const auto rp = path::raster_position(scene_, s->wo);
+                    if (!rp) {
+                        // The direction can be out of the frustum by numerical error
+                        break;
+                    }
+                    raster_pos = *rp;
                 }
 
                 // --------------------------------------------------------------------------------
@@ -324,7 +329,12 @@ public:
 
                 // Compute and cache raster position
                 if (num_verts == 1) {
-                    raster_pos = *path::raster_position(scene_, s->wo);
+                    const auto rp = path::raster_position(scene_, s->wo);
+                    if (!rp) {
+                        // The direction can be out of the frustum by numerical error
+                        break;
+                    }
+                    raster_pos = *rp;
                 }
 
                 // --------------------------------------------------------------------------------
-- 
2.43.0


From c99bfaa3c92f1ec2f86be46063be7d117efa0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 92/96] fix: uninitialized bounds in lights at infinity before
 the scene is built

---
 include/lm/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lm/math.h b/include/lm/math.h
index 7a8c474..d165bc6 100644
--- a/include/lm/math.h
+++ b/include/lm/math.h
@@ -182,8 +182,8 @@ struct Bound {
     \brief Sphere bound.
 */
 struct SphereBound {
-    Vec3 center;        //!< Center of the sphere.
-    Float radius;       //!< Radius of the sphere.
+    Vec3 center = Vec3(0_f);    //!< Center of the sphere.
+    Float radius = 0_f;         //!< Radius of the sphere.
 
     //! \cond
     template <typename Archive>
-- 
2.43.0


From 3cdd910f2b854a04d50478c2d6f015431f91e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:05 +0000
Subject: [PATCH 93/96] fix: saving a film to a full device claims to succeed

---
 src/film/film_bitmap.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index b9f96f2..1df99da 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -73,9 +73,30 @@ namespace image {
             return false;
         }
         #endif
-        fprintf(f, "PF\n%d %d\n-1\n", w, h);
-        fwrite(d.data(), 4, d.size(), f);
-        fclose(f);
+        const bool written =
+            fprintf(f, "PF\n%d %d\n-1\n", w, h) > 0 &&
+            fwrite(d.data(), 4, d.size(), f) == d.size();
+        if (fclose(f) != 0 || !written) {
+            LM_ERROR("Failed to write [file='{}']", outpath);
+            return false;
+        }
+        return true;
+    }
+
+    // Write an encoded image. The encoder takes a callback function of stb_image_write.
+    // Returns false if the image cannot be encoded or the file cannot be written.
+    template <typename EncodeFunc>
+    bool writeEncoded(const std::string& outpath, const EncodeFunc& encode) {
+        std::ofstream os(outpath, std::ios::out | std::ios::binary);
+        const auto write = [](void* context, void* data, int size) {
+            static_cast<std::ofstream*>(context)->write(static_cast<const char*>(data), size);
+        };
+        const bool encoded = os && encode(write, &os);
+        os.close();
+        if (!encoded || !os) {
+            LM_ERROR("Failed to write [file='{}']", outpath);
+            return false;
+        }
         return true;
     }
 
@@ -178,7 +199,9 @@ public:
         const auto ext = fs::path(outpath).extension().string();
         if (ext == ".png") {
             const auto data = copy<unsigned char>(true);
-            if (!stbi_write_png(outpath.c_str(), w_, h_, 3, data.data(), w_*3)) {
+            if (!image::writeEncoded(outpath, [&](stbi_write_func* write, void* context) {
+                    return stbi_write_png_to_func(write, context, w_, h_, 3, data.data(), w_*3);
+                })) {
                 return false;
             }
         }
@@ -193,7 +216,9 @@ public:
         else if (ext == ".hdr") {
             auto data = copy<float>(true);
             image::sanityCheck(w_, h_, data);
-            if (!stbi_write_hdr(outpath.c_str(), w_, h_, 3, data.data())) {
+            if (!image::writeEncoded(outpath, [&](stbi_write_func* write, void* context) {
+                    return stbi_write_hdr_to_func(write, context, w_, h_, 3, data.data());
+                })) {
                 return false;
             }
         }
-- 
2.43.0


From 272146c018d24a461f5bb85504a43b8672e89cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:05 +0000
Subject: [PATCH 94/96] fix: integer overflow in the size of films with too
 many pixels

---
 src/film/film_bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index 1df99da..302aa90 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -159,7 +159,7 @@ public:
         w_ = json::value<int>(prop, "w");
         h_ = json::value<int>(prop, "h");
         quality_ = json::value<int>(prop, "quality", 90);
-        if (w_ <= 0 || h_ <= 0) {
+        if (w_ <= 0 || h_ <= 0 || w_ > std::numeric_limits<int>::max() / 3 / h_) {
             LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid size of film [w={}, h={}]", w_, h_);
         }
         data_.assign(w_*h_, {});
-- 
2.43.0


From 406accce8a96db9dea9ac70e0087c553329d6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:19 +0000
Subject: [PATCH 95/96] fix: assets restored from a file under a name no
 locator can reach

---
 src/assetgroup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 4d454bf..2c0954f 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -146,6 +146,11 @@ public:
         LM_INFO("Loading serialized asset [name='{}']", name);
         LM_INDENT();
 
+        if (!valid_asset_name(name)) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument,
+                "Invalid asset name [name='{}']", name);
+        }
+
         if (asset_index_map_.find(name) != asset_index_map_.end()) {
             LM_THROW_EXCEPTION(Error::InvalidArgument,
                 "Asset [name='{}'] has been already loaded.", name);
-- 
2.43.0


From 0f14c137c877c6231aedbd096a85c2fdbd2dcaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:19 +0000
Subject: [PATCH 96/96] fix: primitives of a model added to a non-group node
 stay in the scene unreachable

---
 src/scene.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scene.cpp b/src/scene.cpp
index 6ea6ae8..268833a 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -167,6 +167,11 @@ public:
             return;
         }
 
+        if (nodes_.at(parent).type != SceneNodeType::Group) {
+            LM_ERROR("Adding child to non-group node [parent='{}']", parent);
+            return;
+        }
+
         auto* model = comp::get<Model>(modelLoc);
         if (!model) {
             return;
-- 
2.43.0

