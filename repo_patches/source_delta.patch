From 1080462d80ced683c6c156b6405812f50a837be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 01/17] fix: compare squared line-point distance with squared
 minimum distance

detail::LinePointDistance() already returns the squared distance; squaring it
again required sqrt(minDistance) instead of minDistance.
---
 include/trajopt/constraint/LinePointConstraint.hpp | 4 ++--
 include/trajopt/constraint/PointLineConstraint.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..5f60bee 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,8 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
-    auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..416fa5c 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,9 +58,9 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto dist =
+    auto squaredDist =
         detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
-- 
2.43.0


From 4090b6820cb9e82cdede4f673f36f5f10a42b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 02/17] fix: use the obstacle's own corner count for its
 closing edge

---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..3d1499b 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From f3ffba90eba75340c04ad55e03d7cdab00e6bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 03/17] fix: keep applying an obstacle to the remaining bumpers
 after a point/point pair

---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 3d1499b..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
-- 
2.43.0


From fb7a8d52c6981bbda58c60dc76edc7d5e5026911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 04/17] fix: do not append default control interval counts to
 explicit ones

Counts given before the waypoints exist got 40 appended per new segment, so the
generator threw std::out_of_range.
---
 src/path/SwervePathBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index c3d9663..0f35c62 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -205,7 +205,8 @@ void SwervePathBuilder::NewWpts(size_t finalIndex) {
     for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {
       path.waypoints.emplace_back();
       initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});
-      if (i != 0) {
+      // Keep control interval counts which were given explicitly
+      if (controlIntervalCounts.size() + 1 < path.waypoints.size()) {
         controlIntervalCounts.push_back(40);
       }
     }
-- 
2.43.0


From 891bd2110b8bad853369e61a21ba49fc2e743d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 05/17] fix: clamp the point-at heading tolerance to half a
 turn

cos(tolerance) grows again beyond pi, so large tolerances excluded headings.
---
 include/trajopt/constraint/PointAtConstraint.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/constraint/PointAtConstraint.hpp b/include/trajopt/constraint/PointAtConstraint.hpp
index cab8077..138bed4 100644
--- a/include/trajopt/constraint/PointAtConstraint.hpp
+++ b/include/trajopt/constraint/PointAtConstraint.hpp
@@ -2,7 +2,10 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
+#include <numbers>
 #include <utility>
 
 #include <sleipnir/autodiff/Variable.hpp>
@@ -59,8 +62,9 @@ class TRAJOPT_DLLEXPORT PointAtConstraint {
     auto dx = m_fieldPoint.X() - pose.X();
     auto dy = m_fieldPoint.Y() - pose.Y();
     auto dot = pose.Rotation().Cos() * dx + pose.Rotation().Sin() * dy;
-    problem.SubjectTo(dot >=
-                      std::cos(m_headingTolerance) * sleipnir::hypot(dx, dy));
+    // A tolerance of half a turn or more allows every heading
+    double tolerance = std::min(m_headingTolerance, std::numbers::pi);
+    problem.SubjectTo(dot >= std::cos(tolerance) * sleipnir::hypot(dx, dy));
   }
 
  private:
-- 
2.43.0


From 69154cf5a24c78e880f93c84ebf8359663fc9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 06/17] fix: do not admit velocities opposite to the required
 direction

---
 .../trajopt/constraint/LinearVelocityDirectionConstraint.hpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/trajopt/constraint/LinearVelocityDirectionConstraint.hpp b/include/trajopt/constraint/LinearVelocityDirectionConstraint.hpp
index cb9f38e..a470e84 100644
--- a/include/trajopt/constraint/LinearVelocityDirectionConstraint.hpp
+++ b/include/trajopt/constraint/LinearVelocityDirectionConstraint.hpp
@@ -46,6 +46,9 @@ class TRAJOPT_DLLEXPORT LinearVelocityDirectionConstraint {
     //   (v ⋅ u)² = ‖v‖²
     auto dot = linearVelocity.Dot(Translation2d{m_angle.Cos(), m_angle.Sin()});
     problem.SubjectTo(dot * dot == linearVelocity.SquaredNorm());
+
+    // Squaring also admits the opposite direction, so exclude it
+    problem.SubjectTo(dot >= 0.0);
   }
 
  private:
-- 
2.43.0


From 90ab8900855f44f3e37f54c77629eee83bc3cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 07/17] fix: make mixed double/Variable translations and
 rotations compile

The coercing Translation2 constructor used private members of another
specialization, and Rotation2::RotateBy() returned the argument's type.
---
 include/trajopt/geometry/Rotation2.hpp    | 2 +-
 include/trajopt/geometry/Translation2.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/geometry/Rotation2.hpp b/include/trajopt/geometry/Rotation2.hpp
index 148665b..af452b2 100644
--- a/include/trajopt/geometry/Rotation2.hpp
+++ b/include/trajopt/geometry/Rotation2.hpp
@@ -90,7 +90,7 @@ class Rotation2 {
    * @return The new rotated rotation.
    */
   template <typename U>
-  constexpr Rotation2<U> RotateBy(const Rotation2<U>& other) const {
+  constexpr auto RotateBy(const Rotation2<U>& other) const {
     using R = decltype(std::declval<T>() + std::declval<U>());
     return Rotation2<R>{Cos() * other.Cos() - Sin() * other.Sin(),
                         Cos() * other.Sin() + Sin() * other.Cos()};
diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 8b2ad7c..47384e5 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -55,7 +55,7 @@ class Translation2 {
    */
   template <typename U>
   constexpr explicit Translation2(const Translation2<U>& other)
-      : m_x{other.m_x}, m_y{other.m_y} {}
+      : m_x{other.X()}, m_y{other.Y()} {}
 
   /**
    * Returns the x component of the translation.
-- 
2.43.0


From 9c3f5274aaf3b5124a2a25df1e7741068ca01a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 08/17] fix: return a unit rotation from Translation2::Angle()

---
 include/trajopt/geometry/Translation2.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 47384e5..2013f49 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -149,7 +149,9 @@ class Translation2 {
    *
    * @return The angle of the translation.
    */
-  constexpr Rotation2<T> Angle() const { return Rotation2<T>{m_x, m_y}; }
+  constexpr Rotation2<T> Angle() const {
+    return Rotation2<T>{atan2(m_y, m_x)};  // NOLINT
+  }
 
   /**
    * Returns the dot product between two translations.
-- 
2.43.0


From 47349076cddc90940de19b6f6127b79cace0de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 09/17] fix: take the time step cap from all module pairs, not
 only adjacent ones

The cap depended on the order in which the modules were listed.
---
 src/SwerveTrajectoryGenerator.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..2874da5 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -107,17 +107,15 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   double minWidth = INFINITY;
   for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                 path.drivetrain.modules.at(i).translation.X()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                             path.drivetrain.modules.at(i).translation.X()));
-    }
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                 path.drivetrain.modules.at(i).translation.Y()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                             path.drivetrain.modules.at(i).translation.Y()));
+    for (size_t j = 0; j < i; j++) {
+      auto difference = path.drivetrain.modules.at(i).translation -
+                        path.drivetrain.modules.at(j).translation;
+      if (difference.X() != 0) {
+        minWidth = std::min(minWidth, std::abs(difference.X()));
+      }
+      if (difference.Y() != 0) {
+        minWidth = std::min(minWidth, std::abs(difference.Y()));
+      }
     }
   }
 
-- 
2.43.0


From 1d0a836e0f3de1f3a20935b48f8f782a98a465d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 10/17] fix: do not constrain time steps by an infinite module
 spacing

A drivetrain without any module spacing (e.g. a single module) produced
constraints with an infinite constant.
---
 src/SwerveTrajectoryGenerator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 2874da5..87c0c67 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cmath>
 #include <utility>
 
 #include <sleipnir/optimization/OptimizationProblem.hpp>
@@ -121,10 +122,12 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
     dt.emplace_back(problem.DecisionVariable());
-    for (auto module : path.drivetrain.modules) {
-      problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
-                            module.wheelMaxAngularVelocity <=
-                        minWidth);
+    if (std::isfinite(minWidth)) {
+      for (auto module : path.drivetrain.modules) {
+        problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
+                              module.wheelMaxAngularVelocity <=
+                          minWidth);
+      }
     }
   }
 
-- 
2.43.0


From e8dfbfc7df4f2e188f5bc67fb4e6ff7552703c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 11/17] fix: rate-limit progress callbacks per generator

The time of the last frame was a function-local static shared by all generators
(a data race, and one generator starved the others), and the callback captured
the address of the generator at construction, which dangles once it is moved.
---
 include/trajopt/SwerveTrajectoryGenerator.hpp | 11 ++++-
 src/SwerveTrajectoryGenerator.cpp             | 45 ++++++++++---------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/include/trajopt/SwerveTrajectoryGenerator.hpp b/include/trajopt/SwerveTrajectoryGenerator.hpp
index 4e31baf..5fda0cf 100644
--- a/include/trajopt/SwerveTrajectoryGenerator.hpp
+++ b/include/trajopt/SwerveTrajectoryGenerator.hpp
@@ -4,7 +4,7 @@
 
 #include <stdint.h>
 
-#include <functional>
+#include <chrono>
 #include <string>
 #include <vector>
 
@@ -47,6 +47,12 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   /// Swerve path
   SwervePath path;
 
+  /// Identifier for state callbacks
+  int64_t handle;
+
+  /// When the last intermediate solution was sent (or generation started)
+  std::chrono::steady_clock::time_point lastFrameTime;
+
   /// State Variables
   std::vector<sleipnir::Variable> x;
   std::vector<sleipnir::Variable> y;
@@ -70,7 +76,8 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   std::vector<size_t> N;
 
   sleipnir::OptimizationProblem problem;
-  std::vector<std::function<void()>> callbacks;
+
+  void SendIntermediateSolution();
 
   void ApplyInitialGuess(const SwerveSolution& solution);
 
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 87c0c67..bf28a4d 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -40,27 +40,11 @@ inline std::vector<std::vector<double>> MatrixSolutionValue(
 
 SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     SwervePathBuilder pathBuilder, int64_t handle)
-    : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
+    : path(pathBuilder.GetPath()),
+      handle(handle),
+      N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle] {
-    constexpr int fps = 60;
-    constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
-
-    // FPS limit on sending updates
-    static auto lastFrameTime = std::chrono::steady_clock::now();
-    auto now = std::chrono::steady_clock::now();
-    if (now - lastFrameTime < timePerFrame) {
-      return;
-    }
-
-    lastFrameTime = now;
-
-    auto soln = ConstructSwerveSolution();
-    for (auto& callback : this->path.callbacks) {
-      callback(soln, handle);
-    }
-  });
   size_t wptCnt = 1 + N.size();
   size_t sgmtCnt = N.size();
   size_t sampTot = GetIndex(N, wptCnt, 0);
@@ -275,10 +259,9 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
     bool diagnostics) {
   GetCancellationFlag() = 0;
+  lastFrameTime = std::chrono::steady_clock::now();
   problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
-    for (auto& callback : callbacks) {
-      callback();
-    }
+    SendIntermediateSolution();
     return trajopt::GetCancellationFlag();
   });
 
@@ -294,6 +277,24 @@ expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
   }
 }
 
+void SwerveTrajectoryGenerator::SendIntermediateSolution() {
+  constexpr int fps = 60;
+  constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
+
+  // FPS limit on sending updates
+  auto now = std::chrono::steady_clock::now();
+  if (now - lastFrameTime < timePerFrame) {
+    return;
+  }
+
+  lastFrameTime = now;
+
+  auto soln = ConstructSwerveSolution();
+  for (auto& callback : path.callbacks) {
+    callback(soln, handle);
+  }
+}
+
 void SwerveTrajectoryGenerator::ApplyInitialGuess(
     const SwerveSolution& solution) {
   size_t sampleTotal = x.size();
-- 
2.43.0


From b3fc8355f6bfa2ab5bf00549b130a82cf63ea5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 12/17] fix: require the first heading sample to be a unit
 vector

---
 src/SwerveTrajectoryGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index bf28a4d..d637bb3 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -128,6 +128,12 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
   }
   problem.Minimize(std::move(T_tot));
 
+  // The kinematics constraints only fix the product of consecutive heading
+  // vectors' lengths, so the first one must be required to be a unit vector
+  problem.SubjectTo(thetacos.at(0) * thetacos.at(0) +
+                        thetasin.at(0) * thetasin.at(0) ==
+                    1.0);
+
   // Apply kinematics constraints
   for (size_t wptIndex = 1; wptIndex < wptCnt; ++wptIndex) {
     size_t N_sgmt = N.at(wptIndex - 1);
-- 
2.43.0


From fdf9772bc582e4ae4ee961be1c29526045418173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 13/17] fix: compare the errors in expected<void, E>'s
 operator!=

---
 include/trajopt/util/expected | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3163b07..b4c348d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2463,7 +2463,7 @@ constexpr bool operator!=(const expected<void, E>& lhs,
                           const expected<void, F>& rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From 04feda6cba18b814461c43e40b026db09ae40fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 14/17] fix: do not leak a default value when converting
 between expected types

---
 include/trajopt/util/expected | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index b4c348d..c61bee9 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1668,7 +1668,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
             detail::expected_enable_from_other<T, E, U, G, const U&,
                                                const G&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1683,7 +1684,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       detail::expected_enable_from_other<T, E, U, G, const U&, const G&>* =
           nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1697,7 +1699,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                             std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1711,7 +1714,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                            std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From e34447971fa52b2b00163b4e29ae5b753a887524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 15/17] fix: restore the old alternative when emplacing,
 assigning or swapping throws

---
 include/trajopt/util/expected | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index c61bee9..1fd6e4a 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1783,7 +1783,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1852,7 +1852,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1892,7 +1892,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1955,7 +1955,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1978,7 +1978,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From c0caf982735137db3ea5efc3c91b94fb6a603c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 16/17] fix: keep the old value when emplacing over a value
 throws

---
 include/trajopt/util/expected | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 1fd6e4a..c2db34e 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1841,8 +1841,15 @@ class expected : private detail::expected_move_assign_base<T, E>,
                                T, Args&&...>::value>* = nullptr>
   void emplace(Args&&... args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      if constexpr (std::is_move_constructible<T>::value &&
+                    std::is_move_assignable<T>::value) {
+        // If this throws, the old value must still be there
+        T tmp(std::forward<Args>(args)...);
+        val() = std::move(tmp);
+      } else {
+        val().~T();
+        ::new (valptr()) T(std::forward<Args>(args)...);
+      }
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
-- 
2.43.0


From 8cd85aa49902ee57675b51abacdd659c4716e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 17/17] fix: keep a distance from a line whose ends coincide

The distance to a line of no length was 0/0, so a polygon closed by
repeating a corner, or a line constraint with equal ends, rejected every
pose.
---
 include/trajopt/constraint/LinePointConstraint.hpp | 9 +++++++++
 include/trajopt/constraint/PointLineConstraint.hpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index 5f60bee..9093266 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -59,6 +59,15 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto lineStart =
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
+
+    // A line whose ends coincide is a point
+    if (m_robotLineStart.X() == m_robotLineEnd.X() &&
+        m_robotLineStart.Y() == m_robotLineEnd.Y()) {
+      problem.SubjectTo((lineStart - m_fieldPoint).SquaredNorm() >=
+                        m_minDistance * m_minDistance);
+      return;
+    }
+
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
     auto squaredDist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 416fa5c..7b4fe36 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,6 +58,15 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
+
+    // A line whose ends coincide is a point
+    if (m_fieldLineStart.X() == m_fieldLineEnd.X() &&
+        m_fieldLineStart.Y() == m_fieldLineEnd.Y()) {
+      problem.SubjectTo((point - m_fieldLineStart).SquaredNorm() >=
+                        m_minDistance * m_minDistance);
+      return;
+    }
+
     auto squaredDist =
         detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
     problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
-- 
2.43.0

