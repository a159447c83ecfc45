From 7c2d05bdccc2395550bab4353745b6e39a1bc239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 01/46] fix: do not declare the complex dilogarithm
 __attribute__((const))

It takes its argument by reference, so the compiler was allowed to drop
the stores to the argument before the call and return garbage.
---
 source/himalaya/misc/Li2.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/misc/Li2.hpp b/source/himalaya/misc/Li2.hpp
index 030a170..1c629c7 100644
--- a/source/himalaya/misc/Li2.hpp
+++ b/source/himalaya/misc/Li2.hpp
@@ -37,8 +37,9 @@ namespace himalaya {
 /// real dilogarithm
 double dilog(double) noexcept ATTR(const);
 
-/// complex dilogarithm
-std::complex<double> dilog(const std::complex<double>&) noexcept ATTR(const);
+/// complex dilogarithm (reads its argument through a reference, so it
+/// must not be declared with __attribute__((const)))
+std::complex<double> dilog(const std::complex<double>&) noexcept ATTR(pure);
 
 /// Clausen function Cl_2(x)
 double clausen_2(double) noexcept ATTR(const);
-- 
2.43.0


From 611ee79da1f3c9f963a3168aeab30869e40c562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 02/46] fix: use the non-zero mass in the logarithm of B0 with
 one massless propagator

---
 source/himalaya/mh2_fo/PV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 2174a38..5e113e7 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -166,7 +166,7 @@ double b0(double p2, double m12, double m22, double q2) noexcept
 
    if (m12 < EPSTOL * EPSTOL * m22) {
       const double del = std::hypot(m22 - p2, EPSTOL * m22);
-      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / p2);
+      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / m22);
    }
 
    const double s = p2 - m22 + m12;
-- 
2.43.0


From 091235cc80ecfe28cef7e24b37650ccc5198b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 03/46] fix: avoid the inaccurate expansion for one small mass
 in Phi(x,y,z)

---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 36 +++----------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e53cc78..02377ba 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1247,40 +1247,12 @@ namespace {
       return sqr(1 - u - v) - 4*u*v;
    }
 
-   /// expansion of (1 - lambda + u - v)/2 for u ~ v ~ 0 up to including O(u^3 v^3)
-   double l00(double u, double v) noexcept
-   {
-      return v*(1 + u*(1 + u*(1 + u)) + v*(u*(1 + u*(3 + 6*u)) + u*(1 + u*(6 + 20*u))*v));
-   }
-
-   /// expansion of (1 - lambda + u - v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double l0v(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return u*(0.5*(1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
-   /// expansion of (1 - lambda - u + v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double lv0(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return v + u*(0.5*(-1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
-   /// returns tuple (0.5*(1 - lambda + u - v), 0.5*(1 - lambda - u + v))
+   /// returns tuple (0.5*(1 - lambda + u - v), 0.5*(1 - lambda - u + v)),
+   /// written such that no cancellation occurs for small u and/or v
    std::tuple<double,double> luv(double lambda, double u, double v) noexcept
    {
-      if (v < qdrt_eps) {
-         return std::make_tuple(l00(u, v), l00(v, u));
-      } else if (u < qdrt_eps) {
-         return std::make_tuple(l0v(u, v), lv0(u, v));
-      }
-      return std::make_tuple(0.5*(1 - lambda + u - v),
-                             0.5*(1 - lambda - u + v));
+      return std::make_tuple(2*u/(1 + lambda + u - v),
+                             2*v/(1 + lambda - u + v));
    }
 
    /// u < 1 && v < 1, lambda^2(u,v) > 0; note: phi_pos(u,v) = phi_pos(v,u)
-- 
2.43.0


From 34f3f80860b8bd6e2d911b4ab80e27349f73f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 04/46] fix: evaluate the threshold loop functions f5-f8 for
 arguments near -1 and for negative or vanishing small arguments

---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 42 +++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 02377ba..05243bd 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -567,8 +567,8 @@ static double f5_0_0(double r1, double r2) noexcept
 
    const double r12 = sqr(r1);
    const double r22 = sqr(r2);
-   const double r2lr2 = xlogx(r2);
-   const double lr2 = logx(r2);
+   const double r2lr2 = r2*logx(std::abs(r2));
+   const double lr2 = logx(std::abs(r2));
 
    // expansion of f5 in
    //   r1 up to (including) r1^2
@@ -695,6 +695,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., 0.01)) {
+      return f5_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., 0.01)) {
+      return f5_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f5_0_r2(r1, r2);
    }
@@ -725,6 +733,10 @@ static double f6_0_0(double r1, double r2) noexcept
       return 0.;
    }
 
+   if (std::abs(r1) > std::abs(r2)) {
+      std::swap(r1, r2);
+   }
+
    const double r22 = sqr(r2);
    const double lr22 = std::log(r22);
 
@@ -861,6 +873,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., 0.001)) {
+      return f6_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., 0.001)) {
+      return f6_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f6_0_r2(r1, r2);
    }
@@ -1032,6 +1052,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f7_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f7_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f7_0_r2(r1, r2);
    }
@@ -1197,7 +1225,7 @@ double f8(double r1, double r2) noexcept
    }
 
    if (is_equal(r1, -1., eps_one) && is_equal(r2, -1., eps_one)) {
-      return -1.;
+      return -f8_1_1(-r1, -r2);
    }
 
    if (is_equal(r1, 1., eps_one)) {
@@ -1208,6 +1236,14 @@ double f8(double r1, double r2) noexcept
       return f8_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return -f8_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return -f8_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f8_0_r2(r1, r2);
    }
-- 
2.43.0


From 79d16fe000ac14a6670ef4c951e8e35f16dd8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 05/46] fix: let the expansion depth flag Dmst12 truncate the
 Dmst12 expansion of h3 and h9

---
 source/himalaya/hierarchies/H3.cpp     | 2 +-
 source/himalaya/hierarchies/H32q2g.cpp | 2 +-
 source/himalaya/hierarchies/H3q22g.cpp | 2 +-
 source/himalaya/hierarchies/H9.cpp     | 2 +-
 source/himalaya/hierarchies/H9q2.cpp   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/hierarchies/H3.cpp b/source/himalaya/hierarchies/H3.cpp
index 2c7bfec..602a23e 100644
--- a/source/himalaya/hierarchies/H3.cpp
+++ b/source/himalaya/hierarchies/H3.cpp
@@ -65,7 +65,7 @@ H3::H3 (const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H32q2g.cpp b/source/himalaya/hierarchies/H32q2g.cpp
index fc5bf95..2c32daf 100644
--- a/source/himalaya/hierarchies/H32q2g.cpp
+++ b/source/himalaya/hierarchies/H32q2g.cpp
@@ -62,7 +62,7 @@ H32q2g::H32q2g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H3q22g.cpp b/source/himalaya/hierarchies/H3q22g.cpp
index 66c8f1f..6e2ca59 100644
--- a/source/himalaya/hierarchies/H3q22g.cpp
+++ b/source/himalaya/hierarchies/H3q22g.cpp
@@ -64,7 +64,7 @@ H3q22g::H3q22g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H9.cpp b/source/himalaya/hierarchies/H9.cpp
index 0a6719f..524496f 100644
--- a/source/himalaya/hierarchies/H9.cpp
+++ b/source/himalaya/hierarchies/H9.cpp
@@ -64,7 +64,7 @@ H9::H9(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, double
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
diff --git a/source/himalaya/hierarchies/H9q2.cpp b/source/himalaya/hierarchies/H9q2.cpp
index 748610e..43e78f3 100644
--- a/source/himalaya/hierarchies/H9q2.cpp
+++ b/source/himalaya/hierarchies/H9q2.cpp
@@ -66,7 +66,7 @@ H9q2::H9q2(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, dou
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
-- 
2.43.0


From 3aa0e4f88a11002e4395e6adaaa8e66c82bc15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 06/46] fix: do not race on the flag that the banner has been
 printed

---
 source/himalaya/HierarchyCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..85ba3b5 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cmath>
 #include <iostream>
 #include <numeric>
@@ -39,7 +40,7 @@
 
 namespace himalaya {
 
-static bool isInfoPrinted; ///< if true, no info will be printed
+static std::atomic<bool> isInfoPrinted{false}; ///< if true, no info will be printed
 
 namespace {
 
@@ -153,9 +154,8 @@ void printInfo()
 HierarchyCalculator::HierarchyCalculator(const Parameters& p_, bool verbose_)
    : p(p_), verbose(verbose_)
 {
-   if (!isInfoPrinted && verbose) {
+   if (verbose && !isInfoPrinted.exchange(true)) {
       printInfo();
-      isInfoPrinted = true;
    }
 
    p.validate(verbose);
-- 
2.43.0


From 73d615ddf58e40e978d93e5dd12ec227cbf881cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 07/46] fix: do not let a hierarchy with an undefined error win
 the selection

---
 source/himalaya/HierarchyCalculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 85ba3b5..c6ed346 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -367,10 +367,11 @@ int HierarchyCalculator::compareHierarchies(himalaya::HierarchyObject& ho)
             + pow2(expUncertainty2L/Mh2LExpanded));
 
          // If the error is negative, it is the first iteration and
-         // there is no hierarchy which fits better.  Otherwise,
+         // there is no hierarchy which fits better.  A hierarchy with
+         // an undefined error (nan) never fits better.  Otherwise,
          // compare the current error with the last error and choose
          // the hierarchy which fits best (lowest error).
-         if (error < 0 || currError < error) {
+         if (error < 0 || currError < error || (std::isnan(error) && !std::isnan(currError))) {
             error = currError;
             suitableHierarchy = hierarchy;
             ho.setAbsDiff2L(twoLoopError);
-- 
2.43.0


From 51064c1fa4c1c5af174abc5c3e09d5dc87c9f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 08/46] fix: avoid the cancellation in B0 at vanishing momentum
 for nearly equal masses

---
 source/himalaya/mh2_fo/PV.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 5e113e7..6dfc4d6 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -161,7 +161,8 @@ double b0(double p2, double m12, double m22, double q2) noexcept
          return 1 - std::log(m22 / q2);
       }
 
-      return 1 - std::log(m22 / q2) + m12 * std::log(m22 / m12) / (m12 - m22);
+      const double d = (m22 - m12) / m12;
+      return 1 - std::log(m22 / q2) - std::log1p(d) / d;
    }
 
    if (m12 < EPSTOL * EPSTOL * m22) {
-- 
2.43.0


From dec036e83a83f0fbd5d37f6c63949c456d3cc224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 09/46] fix: correct the sign of the linear term of F9(x1,x2)
 for x1 near 1 and small x2

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 05243bd..2f271c2 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -368,8 +368,8 @@ static double F9_1_x2(double x1, double x2) noexcept
    const double y6 = sqr(y3);
    const double lx22 = std::log(x22);
 
-   if (is_zero(x2, 0.01)) {
-      return 2 + d;
+   if (is_zero(x2, 1e-10)) {
+      return 2 - d + 2*d2/3 - d3/2 + 2*d4/5;
    }
 
    return
-- 
2.43.0


From d98ed81ccd02f3810215fd9ba6c3fbd57563e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 10/46] fix: reject non-finite Yukawa matrices instead of
 reading uninitialized singular values

---
 source/himalaya/Himalaya_interface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/himalaya/Himalaya_interface.cpp b/source/himalaya/Himalaya_interface.cpp
index 62d110e..948d968 100644
--- a/source/himalaya/Himalaya_interface.cpp
+++ b/source/himalaya/Himalaya_interface.cpp
@@ -120,6 +120,11 @@ void calc_theta(double& theta, double& s2t)
 
 RM33 h_svd(const RM33& M)
 {
+   // the singular values are left uninitialized for non-finite input
+   if (!M.allFinite()) {
+      throw std::runtime_error("Yukawa coupling matrix is not finite!");
+   }
+
    Eigen::JacobiSVD<RM33> svd(M);
    return svd.singularValues().reverse().asDiagonal();
 }
-- 
2.43.0


From fe0cc218e53ce8a31bf69123103359b5fef0df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 11/46] fix: do not read uninitialized results of the SVD of a
 non-finite mass matrix

---
 source/himalaya/mh2_fo/Linalg.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/himalaya/mh2_fo/Linalg.hpp b/source/himalaya/mh2_fo/Linalg.hpp
index 886a534..f99b5ff 100644
--- a/source/himalaya/mh2_fo/Linalg.hpp
+++ b/source/himalaya/mh2_fo/Linalg.hpp
@@ -48,6 +48,14 @@ void svd_eigen
  Eigen::Matrix<Scalar, M, M> *u,
  Eigen::Matrix<Scalar, N, N> *vh)
 {
+    if (!m.allFinite()) {
+        // JacobiSVD leaves its results uninitialized for a non-finite matrix
+        const Real nan = std::numeric_limits<Real>::quiet_NaN();
+        s.setConstant(nan);
+        if (u)  u->setConstant(nan);
+        if (vh) vh->setConstant(nan);
+        return;
+    }
     Eigen::JacobiSVD<Eigen::Matrix<Scalar, M, N> >
 	svd(m, (u ? Eigen::ComputeFullU : 0) | (vh ? Eigen::ComputeFullV : 0));
     s = svd.singularValues();
-- 
2.43.0


From d3a789d0cb4a25ddfc42651513c299e0f5b648d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 12/46] fix: evaluate the H3m to DRbar' conversion accurately
 for nearly degenerate stops

For relative splittings of 1e-7 ... 1e-4 the general formula was used with
catastrophic cancellation (shifts of 1e6 GeV^2 or exactly zero).
---
 source/himalaya/HierarchyCalculator.cpp | 138 ++++++------------------
 1 file changed, 34 insertions(+), 104 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index c6ed346..6bc26a6 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -124,6 +124,25 @@ int getMotherHierarchy(int hierarchy)
    return hierarchyMap.at(hierarchy);
 }
 
+/**
+ * Calculates (a^2 - b^2 - 2 a b log(a/b))/(a b (a - b)^3), which is
+ * regular for a = b.
+ *
+ * @param a first squared stop mass
+ * @param b second squared stop mass
+ * @param isDegenerate if true, an expansion around a = b is used
+ */
+double calcStopMassFunction(double a, double b, bool isDegenerate)
+{
+   if (isDegenerate) {
+      const double d = b/a - 1;
+      return (1/3. + d*(-1/6. + d*(1/10. + d*(-1/15. + d*(1/21. + d*(
+         -1/28. + d/36.))))))/((1 + d)*pow3(a));
+   }
+
+   return (pow2(a) - pow2(b) - 2*a*b*std::log(a/b))/(a*b*pow3(a - b));
+}
+
 /**
  * Prints out some information about Himalaya.
  */
@@ -964,7 +983,6 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double scale2 = pow2(p.scale);
    const double Xt2 = pow2(Xt);
    const double Mst22 = pow2(Mst2);
-   const double Dmst12 = Mst12 - Mst22;
 
    // logarithms
    const double lmMst1 = std::log(scale2 / Mst12);
@@ -972,67 +990,21 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double lmMsq = std::log(scale2 / Msq2);
    const double lmMgl = std::log(scale2 / Mgl2);
 
-   // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*Xt2*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1))*pow2(p.mu))/(3.*pow6(Mst1));
-      // exact result
-      const double exact = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2)*pow2(Mst1)*pow2(Mst2) + pow4(Mst1) - pow4(Mst2)))/(pow2(Mst1)*
-        pow2(Mst2)*pow3(pow2(Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2shift)*pow2(Mst1)*pow2(Mst2shift) + pow4(Mst1) - pow4(Mst2shift)))/(pow2(Mst1)*
-        pow2(Mst2shift)*pow3(pow2(Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
+   // common factors
+   const double fac = 16*(-6*(1 + lmMgl)*Mgl2 + 10*(1 + lmMsq)*Msq2
+      + (1 + lmMst1)*Mst12 + (1 + lmMst2)*Mst22);
+   const double f = calcStopMassFunction(Mst12, Mst22, std::abs(Mst1 - Mst2) < eps);
+   const double Xt3 = Xt2*Xt;
 
    Eigen::Matrix2d shift;
 
    // calculate matrix elements
-   if (isDegenerate) {
-      shift(0, 0) = (32*Xt2*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1))*pow2(p.mu))/(3.*pow6(Mst1));
-      shift(1, 0) = (-32*p.mu*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1))*(p.mu*Xt2 - 3*tb*Xt*pow2(Mst1) + tb*pow3(Xt)))/
-        (3.*tb*pow6(Mst1));
-      shift(0, 1) = shift(1, 0);
-      shift(1, 1) = (32*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1))*(-6*tb*(p.mu*Xt + tb*Xt2)*pow2(Mst1) + Xt2*pow2(p.mu) +
-        truncateXt*pow2(tb)*pow2(Xt2) + 2*p.mu*tb*pow3(Xt) + 6*pow2(tb)*
-        pow4(Mst1)))/(3.*pow2(tb)*pow6(Mst1));
-   } else {
-      shift(0, 0) = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2)*pow2(Mst1)*pow2(Mst2) + pow4(Mst1) - pow4(Mst2)))/(pow2(Mst1)*
-        pow2(Mst2)*pow3(pow2(Mst1) - pow2(Mst2)));
-      shift(1, 0) = (16*p.mu*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*(4*std::log(Mst1/Mst2)*pow2(
-        Mst1)*pow2(Mst2)*(p.mu*Xt2 + tb*pow3(Xt)) + p.mu*Xt2*(-pow4(Mst1) +
-        pow4(Mst2)) + tb*Xt*(pow3(pow2(Mst1) - pow2(Mst2)) + pow2(Xt)*(-
-        pow4(Mst1) + pow4(Mst2)))))/(tb*pow2(Mst1)*pow2(Mst2)*pow3(pow2(
-        Mst1) - pow2(Mst2)));
-      shift(0, 1) = shift(1, 0);
-      shift(1, 1) = (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*(-4*std::log(Mst1/Mst2)*pow2(Mst1)*
-        pow2(Mst2)*(Xt2*pow2(p.mu) + truncateXt*pow2(tb)*pow2(Xt2) + 2*p.mu*
-        tb*pow3(Xt)) + Xt2*(-2*pow2(tb)*pow3(pow2(Mst1) - pow2(Mst2)) +
-        pow2(p.mu)*(pow4(Mst1) - pow4(Mst2))) + tb*(-2*p.mu*Xt*pow3(pow2(Mst1) -
-        pow2(Mst2)) + tb*(pow2(Mst1) + pow2(Mst2))*pow3(pow2(Mst1) - pow2(
-        Mst2)) + 2*p.mu*pow3(Xt)*(pow4(Mst1) - pow4(Mst2))) + truncateXt*pow2(
-        tb)*pow2(Xt2)*(pow4(Mst1) - pow4(Mst2))))/(pow2(Mst1)*pow2(Mst2)*
-        pow2(tb)*pow3(pow2(Mst1) - pow2(Mst2)));
-   }
+   shift(0, 0) = fac*Xt2*pow2(p.mu)*f;
+   shift(1, 0) = fac*p.mu/tb*(tb*Xt/(Mst12*Mst22) - (p.mu*Xt2 + tb*Xt3)*f);
+   shift(0, 1) = shift(1, 0);
+   shift(1, 1) = fac/pow2(tb)*(
+      (pow2(tb)*(Mst12 + Mst22) - 2*pow2(tb)*Xt2 - 2*p.mu*tb*Xt)/(Mst12*Mst22)
+      + (Xt2*pow2(p.mu) + truncateXt*pow2(tb)*pow2(Xt2) + 2*p.mu*tb*Xt3)*f);
 
    // pre-factor of shift -> checked normalization against H3m normalization and they coincide
    const double yt = sqrt2 * p.Mt / p.vu;
@@ -1081,7 +1053,6 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
    const double scale2 = pow2(p.scale);
    const double Xt2 = pow2(Xt);
    const double Mst22 = pow2(Mst2);
-   const double Dmst12 = Mst12 - Mst22;
 
    // logarithms
    const double lmMst1 = omitLogs * std::log(scale2 / Mst12);
@@ -1089,52 +1060,11 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
    const double lmMsq = omitLogs * std::log(scale2 / Mst12) - std::log(Msq2 / Mst12);
    const double lmMgl = omitLogs * std::log(scale2 / Mst12) - std::log(Mgl2 / Mst12);
 
-   // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1))*(-6*Xt2*pow2(Mst1) + truncateXt*pow2(Xt2) + 6*pow4(Mst1)))/
-        (3.*pow6(Mst1));
-      // exact result
-      const double exact =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*(4*truncateXt*std::log(Mst2/Mst1)*
-        pow2(Mst1)*pow2(Mst2)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2)) +
-        (pow2(Mst1) + pow2(Mst2))*pow3(pow2(Mst1) - pow2(Mst2)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2))))/(pow2(Mst1)*pow2(Mst2)*pow3(pow2(
-        Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*(4*truncateXt*std::log(Mst2shift/Mst1)*
-        pow2(Mst1)*pow2(Mst2shift)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2shift)) +
-        (pow2(Mst1) + pow2(Mst2shift))*pow3(pow2(Mst1) - pow2(Mst2shift)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2shift))))/(pow2(Mst1)*pow2(Mst2shift)*pow3(pow2(
-        Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
-
-   double shift = 0.;
+   const double f = calcStopMassFunction(Mst12, Mst22, std::abs(Mst1 - Mst2) < eps);
 
-   if (isDegenerate) {
-      shift = (32*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1))*(-6*Xt2*pow2(Mst1) + truncateXt*pow2(Xt2) + 6*pow4(Mst1)))/
-        (3.*pow6(Mst1));
-   } else {
-      shift = (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*(4*truncateXt*std::log(Mst2/Mst1)*
-        pow2(Mst1)*pow2(Mst2)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2)) +
-        (pow2(Mst1) + pow2(Mst2))*pow3(pow2(Mst1) - pow2(Mst2)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2))))/(pow2(Mst1)*pow2(Mst2)*pow3(pow2(
-        Mst1) - pow2(Mst2)));
-   }
-
-   return shift;
+   return 16*(-6*(1 + lmMgl)*Mgl2 + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*Mst12
+      + (1 + lmMst2)*Mst22)*((Mst12 + Mst22 - 2*Xt2)/(Mst12*Mst22)
+      + truncateXt*pow2(Xt2)*f);
 }
 
 
-- 
2.43.0


From af70a44faf7dc480b92e036ab7c009aa6f49e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 13/46] fix: keep the sign of cos(theta) in the O(at^2)
 two-loop corrections and guard vanishing cos(theta)

---
 source/himalaya/mh2l/DSZHiggs.f | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 937522d..b9a3694 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -62,9 +62,15 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             st = -eps_st
          endif
       endif
-      ct = sqrt(1.d0-st*st)
+      ct = sign(sqrt(1.d0-st*st),ct)
 c     end of addition by ALEX
 
+c     the same for vanishing cos theta
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st,ct)
+         st = sign(sqrt(1.d0-ct*ct),st)
+      endif
+
 c     ADDED by ALEX: guards against NANs when T1 == T2
       if (dabs((T1-T2)/T1).lt.eps_t1) then
          if (T1.gt.T2) then
@@ -83,9 +89,15 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             sb = -eps_sb
          endif
       endif
-      cb = sqrt(1.d0-sb*sb)
+      cb = sign(sqrt(1.d0-sb*sb),cb)
 c     end of addition by ALEX
 
+c     the same for vanishing cos theta
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb,cb)
+         sb = sign(sqrt(1.d0-cb*cb),sb)
+      endif
+
 c     ADDED by ALEX: guards against NANs when B1 == B2
       if (dabs((B1-B2)/B1).lt.eps_b1) then
          if (B1.gt.B2) then
@@ -221,9 +233,15 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             st = -eps_st
          endif
       endif
-      ct = sqrt(1.d0-st*st)
+      ct = sign(sqrt(1.d0-st*st),ct)
 c     end of addition by ALEX
 
+c     the same for vanishing cos theta
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st,ct)
+         st = sign(sqrt(1.d0-ct*ct),st)
+      endif
+
 c     ADDED by ALEX: guards against NANs when T1 == T2
       if (dabs((T1-T2)/T1).lt.eps_t1) then
          if (T1.gt.T2) then
@@ -242,9 +260,15 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             sb = -eps_sb
          endif
       endif
-      cb = sqrt(1.d0-sb*sb)
+      cb = sign(sqrt(1.d0-sb*sb),cb)
 c     end of addition by ALEX
 
+c     the same for vanishing cos theta
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb,cb)
+         sb = sign(sqrt(1.d0-cb*cb),sb)
+      endif
+
 c     ADDED by ALEX: guards against NANs when B1 == B2
       if (dabs((B1-B2)/B1).lt.eps_b1) then
          if (B1.gt.B2) then
-- 
2.43.0


From 897cbe017cecd427c49cf139cfc558feab793000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 14/46] fix: use the dimensionless function Phi(x/z,y/z) in the
 2-loop threshold corrections

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f26414e..3c317d1 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -111,15 +111,20 @@ double deltaxyz(double x, double y, double z) noexcept
  *
  * Davydychev and Tausk, Nucl. Phys. B397 (1993) 23
  *
+ * @note The formulas below are written in terms of the dimensionless
+ * function \f$\Phi(x/z,y/z)\f$, while
+ * threshold_loop_functions::phi_xyz contains the factor
+ * \f$\Delta(x,y,z)/(2z)\f$.
+ *
  * @param x squared mass
  * @param y squared mass
  * @param z squared mass
  *
- * @return \f$\Phi(x,y,z)\f$
+ * @return \f$\Phi(x/z,y/z)\f$
  */
 double phixyz(double x, double y, double z) noexcept
 {
-   return threshold_loop_functions::phi_xyz(x, y, z);
+   return 2*z*threshold_loop_functions::phi_xyz(x, y, z)/deltaxyz(x, y, z);
 }
 
 } // anonymous namespace
-- 
2.43.0


From 58e4301f8b10289461ff7793dd5d5178b2a75d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 15/46] fix: evaluate all logarithms of the O(at^2) threshold
 correction with the same (shifted) squark masses

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 3c317d1..4c101b5 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1395,7 +1395,6 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt4 = pow2(Xt2);
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
-   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
 
    if (is_equal_rel(mQ32, mU32, 0.1) &&
        (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
@@ -1408,6 +1407,7 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double mU3 = std::sqrt(mU32);
    const double Mu = p.mu * std::sqrt(1.03);
    const double Mu2 = pow2(Mu);
+   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR = omitLogs*std::log(Mu2 / MR2);
 
    return (18*pow2(cbeta)*pow2(log(mA2/MR2)))/pow2(sbeta) - (288*Yt*pow2(cbeta)*
-- 
2.43.0


From 4925fd5949625cf70695c44dcd41b11287350de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 16/46] fix: remove spurious stop and sbottom mixing terms from
 the O(ab) threshold correction to yt

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 4c101b5..6224136 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -815,8 +815,8 @@ double ThresholdCalculator::getDeltaYtYb(int omitLogs) const
    const double lmAMR = omitLogs*std::log(pow2(p.MA) / MR2);
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
-   return (-2*p.mu*mU3*pow2(Xb)*F5(mQ3/mD3)*pow2(cbeta)*(1 + pow2(sbeta)) + mD3*pow2(
-        sbeta)*(-2*p.mu*pow2(Xt)*F5(mQ3/mU3)*pow2(sbeta) + mQ3*mU3*(4*p.mu*F6(mD3/p.mu) +
+   return (-2*p.mu*mU3*pow2(Xb)*F5(mQ3/mD3)*pow2(cbeta)*pow2(sbeta) + mD3*pow2(
+        sbeta)*(mQ3*mU3*(4*p.mu*F6(mD3/p.mu) +
         4*p.vd/p.vu*Xb*F9(mQ3/p.mu,mD3/p.mu) + p.mu*(2*lmUMR - 8*pow2(cbeta) - pow2(
         sbeta) + 2*lmAMR*(4*pow2(cbeta) + pow2(sbeta))))))/(8.*mD3*mQ3*
         p.mu*mU3*pow2(sbeta));
-- 
2.43.0


From a4a380f7c1948178c81299492d4b2346bf0e7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 17/46] fix: keep the sign of mu in the O(at*ab) two-loop
 threshold corrections to lambda

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 105 +++++++++---------
 1 file changed, 50 insertions(+), 55 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 6224136..f7fb461 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2248,8 +2248,8 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
    }
 
-   return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
-        mD32 - mQ32)*sbeta) + (48*Xt*std::abs(Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
+   return -6 + (48*Xb*Mu*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
+        mD32 - mQ32)*sbeta) + (48*Xt*Mu*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
         - Mu2/mQ32) + (mQ32 - Mu2)*(Mu2 + mU32)*dilog(1 - Mu2/mU32)))/(cbeta*(-
         mQ32 + Mu2)*(mQ32 - mU32)*(Mu2 - mU32)*sbeta) - (24*dilog(1 - Mu2/mD32)
         )/pow2(cbeta) + 8*pow2(Pi) + 12*dilog(1 - Mu2/mQ32)*(-2/pow2(cbeta) +
@@ -2258,15 +2258,15 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         - Mu2/mU32))/pow2(sbeta) + (3*pow2(cbeta))/pow2(sbeta) - (6*mA2*pow2(
         cbeta))/(mQ32*pow2(sbeta)) + (2*pow2(cbeta)*pow2(Pi))/pow2(sbeta) - (6*
         pow2(cbeta)*pow2(Yt))/(mQ32*pow2(sbeta)) + (24 + (6*pow2(cbeta))/pow2(
-        sbeta))*pow2(log(mA2/MR2)) + (48*((-mD32 - mQ32 + 2*Mu2)*sbeta*std::abs(Mu)*
-        dilog(1 - Mu2/mD32) + (mD32 + mQ32 - 2*Mu2)*sbeta*std::abs(Mu)*dilog(1 -
-        Mu2/mQ32) - 2*(mD32 - mQ32)*(2*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(
+        sbeta))*pow2(log(mA2/MR2)) + (48*((-mD32 - mQ32 + 2*Mu2)*sbeta*Mu*
+        dilog(1 - Mu2/mD32) + (mD32 + mQ32 - 2*Mu2)*sbeta*Mu*dilog(1 -
+        Mu2/mQ32) - 2*(mD32 - mQ32)*(2*sbeta*Mu + cbeta*(Yb + Yt)*pow2(
         sbeta) + Yt*pow3(cbeta)))*pow3(Xb))/(cbeta*pow2(sbeta)*pow3(mD32 -
         mQ32)) - (24*dilog(1 - Mu2/mU32)*pow4(Mu))/(pow2(Mu2 - mU32)*pow2(
-        sbeta)) + pow2(log(mU32/mQ32))*((24*(Mu2 + mU32)*Xt*std::abs(Mu))/(cbeta*(
+        sbeta)) + pow2(log(mU32/mQ32))*((24*(Mu2 + mU32)*Xt*Mu)/(cbeta*(
         Mu2 - mU32)*(-mQ32 + mU32)*sbeta) - (6*Xt2*(2*mU32 + 3*(mQ32 - mU32 +
         Xb2)*pow2(cbeta)))/(pow2(cbeta)*pow2(mQ32 - mU32)) + (6 - (12*pow4(Mu))
-        /pow2(Mu2 - mU32))/pow2(sbeta)) + 6*pow2(lmQ3MR)*(3 + (8*pow(Mu2,1.5)
+        /pow2(Mu2 - mU32))/pow2(sbeta)) + 6*pow2(lmQ3MR)*(3 + (8*pow3(Mu)
         *Xt)/(cbeta*(-mQ32 + Mu2)*(Mu2 - mU32)*sbeta) + (2*(-1 + pow2(sbeta)))/
         pow2(cbeta) + pow2(cbeta)/pow2(sbeta) + (2 - (2*pow4(Mu))/pow2(Mu2 -
         mU32))/pow2(sbeta)) + (12*Xb2*(3*mD32*mQ32*pow2(cbeta) - 2*mD32*Mu2*
@@ -2286,10 +2286,10 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         (mD32 - Mu2)*pow2(cbeta)) + 1/(mQ32*pow2(sbeta))))/(mD32 - mQ32) - (2/
         mQ32 + (Mu2 + 2*mU32)/pow2(Mu2 - mU32))/pow2(sbeta) + (2*(mD32 + 2*
         mQ32)*pow4(Xb))/(mQ32*pow2(sbeta)*pow3(-mD32 + mQ32))) + 6*pow2(log(
-        mD32/mQ32))*((4*Xb*std::abs(Mu))/(cbeta*mD32*sbeta - cbeta*mQ32*sbeta) - 2/
+        mD32/mQ32))*((4*Xb*Mu)/(cbeta*mD32*sbeta - cbeta*mQ32*sbeta) - 2/
         pow2(cbeta) + (2*Xb2*((mD32 - Mu2)*pow2(cbeta) + mQ32*pow2(sbeta)))/(
         pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) - (4*(mD32 + mQ32 - 2*Mu2)*
-        std::abs(Mu)*pow3(Xb))/(cbeta*sbeta*pow3(mD32 - mQ32)) - ((mD32 + 2*mQ32 -
+        Mu*pow3(Xb))/(cbeta*sbeta*pow3(mD32 - mQ32)) - ((mD32 + 2*mQ32 -
         3*Mu2)*(mD32 - Mu2)*pow4(Xb))/(pow2(sbeta)*pow4(mD32 - mQ32))) + (6*
         phixyz(mA2,mU32,mD32)*((2*Xb*Yt*(pow2(cbeta) + pow2(sbeta))*(-3*mD32*
         mU32 - mA2*(3*mD32 + 2*mU32) + pow4(mA) + 2*pow4(mD3) + pow4(mU3)))/((
@@ -2396,13 +2396,13 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         pow2(cbeta)*pow3(-mD32 + mQ32)))))/pow4(mQ3) + lmQ3MR*((-6*(mD32 - mQ32
         + Xb2)*(mQ32 - mU32 + Xt2)*pow2(mA2 + mD32 - mQ32)*pow2(sbeta)*pow2(Yb)
         )/(mD32*(mD32 - mQ32)*(mQ32 - mU32)*deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)
-        ) + (48*(2*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)
+        ) + (48*(2*sbeta*Mu + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)
         )*pow3(Xb))/(cbeta*pow2(mD32 - mQ32)*pow2(sbeta)) + (6*Xb2*(4 + (-4 - (
         2*mU32)/mQ32)/pow2(sbeta) + (-(Mu2*pow2(sbeta)*pow2(Yb)) + mD32*(-2*
         Mu2*(1 + pow2(sbeta)) + pow2(sbeta)*pow2(Yb)) + 2*(-1 + pow2(sbeta))*
         pow4(mD3))/(mD32*(mD32 - Mu2)*pow2(cbeta)) + (pow2(cbeta)*((mA2 - mU32)
         *pow2(Yt) + 2*pow4(mQ3)))/(pow2(sbeta)*pow4(mQ3))))/(mD32 - mQ32) + (
-        12*lmUMR*((-4*pow(Mu2,1.5)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-mQ32 +
+        12*lmUMR*((-4*pow3(Mu)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-mQ32 +
         Mu2)) + pow4(Mu)))/(pow2(Mu2 - mU32)*pow2(sbeta)) + 3*((8*Mu2*(1/(-mD32
         + Mu2) + 1/(-mQ32 + Mu2)) + 2*pow2(sbeta)*(-4 + pow2(Yb)/mD32))/pow2(
         cbeta) - (pow2(cbeta)*((mA2 - mU32)*pow2(Yt) + 4*pow4(mQ3)))/(pow2(
@@ -2426,12 +2426,12 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         sbeta))*pow6(mQ3))/(mQ32*(mQ32 - Mu2))))/(pow2(cbeta)*pow2(mQ32 - mU32)
         ))) + log(mU32/mQ32)*((6*Xb2*((-mA2 + mU32)*pow2(cbeta)*pow2(Yt) + 2*
         mQ32*(mU32 + pow2(cbeta)*pow2(Yt))))/((-mD32 + mQ32)*pow2(sbeta)*pow4(
-        mQ3)) + (12*lmUMR*((-4*pow(Mu2,1.5)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-
+        mQ3)) + (12*lmUMR*((-4*pow3(Mu)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-
         mQ32 + mU32)) + pow4(Mu)))/(pow2(Mu2 - mU32)*pow2(sbeta)) + (3*((2*(
         mU32 + pow2(cbeta)*pow2(Yt)))/mQ32 + ((-mA2 + mU32)*pow2(cbeta)*pow2(
         Yt))/pow4(mQ3) + (2*(2*Mu2*mU32 + pow4(mU3)))/pow2(Mu2 - mU32)))/pow2(
         sbeta) + 6*lmQ3MR*(2 + pow2(sbeta)/pow2(cbeta) + (2*Xt*(4*cbeta*(Mu2 +
-        mU32)*std::abs(Mu) + (Mu2 - mU32)*sbeta*(Xb + Yb + Yt)*pow2(cbeta) + (Mu2 -
+        mU32)*Mu + (Mu2 - mU32)*sbeta*(Xb + Yb + Yt)*pow2(cbeta) + (Mu2 -
         mU32)*(Xb + Yb)*pow3(sbeta)))/((mQ32 - mU32)*(-Mu2 + mU32)*sbeta*pow2(
         cbeta)) + (2 + pow2(cbeta) - (4*pow4(Mu))/pow2(Mu2 - mU32))/pow2(sbeta)
         - (Xt2*(mQ32*(2*mU32*(1 + 5*pow2(cbeta)) + (mA2 - Yb*(2*Xb + Yb))*pow2(
@@ -2458,15 +2458,15 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         cbeta) - pow2(cbeta)/pow2(sbeta)) - (12*(mA2 + mD32 - mQ32)*(mD32 -
         mQ32 + Xb2)*(mQ32 - mU32 + Xt2)*pow2(sbeta)*pow2(Yb))/((mD32 - mQ32)*(
         mQ32 - mU32)*deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)) - (24*Xb*(2*sbeta*
-        std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)))/(cbeta*(mD32 -
-        mQ32)*pow2(sbeta)) + (24*(3*mD32 + mQ32)*(2*sbeta*std::abs(Mu) + cbeta*(Yb +
+        Mu + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)))/(cbeta*(mD32 -
+        mQ32)*pow2(sbeta)) + (24*(3*mD32 + mQ32)*(2*sbeta*Mu + cbeta*(Yb +
         Yt)*pow2(sbeta) + Yt*pow3(cbeta))*pow3(Xb))/(cbeta*pow2(sbeta)*pow3(
         mD32 - mQ32)) - (12*Xb2*(-((mD32 - Mu2)*pow2(cbeta)*(2*Mu2 - mU32 + 3*
         mD32*(-1 + pow2(sbeta)) + mQ32*pow2(sbeta))) + (mD32 - Mu2)*(mA2 - mD32
         - mQ32 + pow2(Yt))*pow4(cbeta) + pow2(sbeta)*(mQ32*Mu2*(-2 + pow2(
         sbeta)) + mD32*(-mQ32 + Mu2)*pow2(sbeta) - (-2 + pow2(sbeta))*pow4(mD3)
         )))/((mD32 - Mu2)*pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) + (12*
-        lmUMR*pow3(Xb)*(-8*mD32*pow(Mu2,1.5)*sbeta + 8*mQ32*pow(Mu2,1.5)*
+        lmUMR*pow3(Xb)*(-8*mD32*pow3(Mu)*sbeta + 8*mQ32*pow3(Mu)*
         sbeta + 3*cbeta*Xb*pow4(Mu)))/(cbeta*pow2(sbeta)*pow4(mD32 - mQ32)) + (
         12*(mQ32*(-2*Mu2 + mU32 + mQ32*pow2(sbeta)) + mD32*(-7*Mu2 + 2*mU32 +
         mQ32*(3 + 6*pow2(sbeta))) + pow2(cbeta)*(mA2*(2*mD32 + mQ32) + (5*mD32
@@ -2487,13 +2487,13 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         sbeta)*pow4(mD32 - mQ32)) + (6*lmQ3MR*(2*(mD32 - mQ32)*Xb*Xt*pow2(
         sbeta)*(-2*Xb2*Yb*Yt*pow2(cbeta) + pow2(mD32 - mQ32)*(pow2(cbeta) +
         pow2(sbeta)) - (mD32 - mQ32)*Xb*((Yb - Yt)*pow2(cbeta) + Yb*pow2(sbeta)
-        )) + 2*cbeta*(mD32 - mQ32)*(8*pow(Mu2,1.5)*sbeta + 2*cbeta*(-(mU32*
+        )) + 2*cbeta*(mD32 - mQ32)*(8*pow3(Mu)*sbeta + 2*cbeta*(-(mU32*
         Yt) + mA2*(Yb + Yt))*pow2(sbeta) + 2*(mA2 - mU32)*Yt*pow3(cbeta) -
-        mD32*(4*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)) -
-        mQ32*(4*sbeta*std::abs(Mu) + cbeta*(3*Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))
+        mD32*(4*sbeta*Mu + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)) -
+        mQ32*(4*sbeta*Mu + cbeta*(3*Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))
         )*pow3(Xb) + pow4(mD32 - mQ32)*(-2*pow2(sbeta) + 2*pow2(cbeta)*pow2(
         sbeta) + pow4(cbeta) + pow4(sbeta)) + 2*Xb*pow3(mD32 - mQ32)*(4*cbeta*
-        sbeta*std::abs(Mu) + (Yb + Yt)*pow2(cbeta)*pow2(sbeta) + Yt*pow4(cbeta) +
+        sbeta*Mu + (Yb + Yt)*pow2(cbeta)*pow2(sbeta) + Yt*pow4(cbeta) +
         Yb*pow4(sbeta)) - Xb2*pow2(mD32 - mQ32)*(mQ32*(-2 + pow2(sbeta))*pow2(
         sbeta) + 2*pow2(cbeta)*(2*Mu2 - mU32 - 2*mQ32*pow2(sbeta) + mU32*pow2(
         sbeta) + mD32*(-2 + 3*pow2(sbeta))) + (-mA2 + mQ32 + mU32 - pow2(Yt))*
@@ -2648,9 +2648,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
    }
 
-   return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
+   return -4 + (48*Xb*Mu*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
-        mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*std::abs(Mu)*(dilog(1 - Mu2/mQ32) -
+        mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*Mu*(dilog(1 - Mu2/mQ32) -
         dilog(1 - Mu2/mU32)))/(cbeta*(mQ32 - mU32)*sbeta) - 9/pow2(cbeta) - (6*
         mD32)/(mQ32*pow2(cbeta)) + (6*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (12*
         Mu2)/(mQ32*pow2(cbeta)) + 8*pow2(Pi) + 12*dilog(1 - Mu2/mQ32)*(1/pow2(
@@ -2659,9 +2659,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(Pi)*pow2(sbeta))/pow2(cbeta) + 6*pow2(lmQ3MR)*(3 + (2*(-1 + pow2(
         cbeta)))/pow2(sbeta) + pow2(sbeta)/pow2(cbeta)) - (6*pow2(sbeta)*pow2(
         Yb))/(mQ32*pow2(cbeta)) + (24 + (6*pow2(sbeta))/pow2(cbeta))*pow2(log(
-        mA2/MR2)) + (48*(cbeta*(-mQ32 + 2*Mu2 - mU32)*std::abs(Mu)*dilog(1 - Mu2/
-        mQ32) + cbeta*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu)*dilog(1 - Mu2/mU32) - 2*(
-        mQ32 - mU32)*(2*cbeta*std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(
+        mA2/MR2)) + (48*(cbeta*(-mQ32 + 2*Mu2 - mU32)*Mu*dilog(1 - Mu2/
+        mQ32) + cbeta*(mQ32 - 2*Mu2 + mU32)*Mu*dilog(1 - Mu2/mU32) - 2*(
+        mQ32 - mU32)*(2*cbeta*Mu + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(
         sbeta)))*pow3(Xt))/(sbeta*pow2(cbeta)*pow3(mQ32 - mU32)) - (6*Xb2*(4*
         mD32*mQ32 + 4*mD32*mQ32*dilog(1 - Mu2/mD32) - 4*mD32*mQ32*dilog(1 -
         Mu2/mQ32) - 4*mD32*mQ32*pow2(cbeta) - 6*mD32*mQ32*pow2(sbeta) + 6*(mD32
@@ -2687,7 +2687,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Xb2*pow2(cbeta)*pow2(Yt) - (mD32 - mQ32)*(-(mA2*pow2(cbeta)*pow2(Yt)) +
         mQ32*(-2*mU32*pow2(sbeta) + 5*pow2(cbeta)*pow2(Yt)) + 2*pow2(sbeta)*
         pow4(mQ3))))/((mD32 - mQ32)*pow2(mQ32 - mU32)*pow2(sbeta)*pow4(mQ3))) +
-        6*pow2(log(mD32/mQ32))*((-4*(mD32 + Mu2)*Xb*std::abs(Mu))/(cbeta*(mD32 -
+        6*pow2(log(mD32/mQ32))*((-4*(mD32 + Mu2)*Xb*Mu)/(cbeta*(mD32 -
         mQ32)*(mD32 - Mu2)*sbeta) - (2*mD32*Xb2)/(pow2(mD32 - mQ32)*pow2(sbeta)
         ) + (-2*mD32*Mu2 + pow4(mD3) - pow4(Mu))/(pow2(cbeta)*pow2(mD32 - Mu2))
         ) + (12*dilog(1 - Mu2/mD32)*(-2*mD32*Mu2 + pow4(mD3) - pow4(Mu)))/(
@@ -2695,15 +2695,13 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Mu2)/pow2(mD32 - Mu2))/pow2(cbeta)) + (4*(1/(mQ32 - Mu2) + 1/(-Mu2 +
         mU32)))/pow2(sbeta)) + (4*Mu2*Xb2)/((mD32 - mQ32)*(-mQ32 + Mu2)*pow2(
         sbeta)) + 4*Mu2*Xt2*(1/((mQ32 - mU32)*(Mu2 - mU32)*pow2(sbeta)) - 1/(
-        pow2(cbeta)*(-(mQ32*mU32) + pow4(mQ3)))) + (2*Xt4*((4*cbeta*pow(Mu2,
-        1.5)*(-mD32 + Mu2)*(mQ32 - mU32)*Xb)/((-mQ32 + Mu2)*sbeta) + (Mu2*(2*
+        pow2(cbeta)*(-(mQ32*mU32) + pow4(mQ3)))) + (2*Xt4*((4*cbeta*pow3(Mu)*(-mD32 + Mu2)*(mQ32 - mU32)*Xb)/((-mQ32 + Mu2)*sbeta) + (Mu2*(2*
         mQ32 + mU32)*pow4(mD3) - 2*mD32*(2*mQ32 + mU32)*pow4(Mu) + (Mu2*mU32 +
         mQ32*(2*Mu2 + mU32) - pow4(mQ3))*pow4(Mu))/mQ32))/(pow2(cbeta)*pow2(
-        mD32 - Mu2)*pow3(mQ32 - mU32))) + 6*pow2(log(mU32/mQ32))*((-4*Xt*std::abs(
-        Mu))/(cbeta*mQ32*sbeta - cbeta*mU32*sbeta) - 2/pow2(sbeta) + (Xt2*(2*(-
+        mD32 - Mu2)*pow3(mQ32 - mU32))) + 6*pow2(log(mU32/mQ32))*((-4*Xt*Mu)/(cbeta*mQ32*sbeta - cbeta*mU32*sbeta) - 2/pow2(sbeta) + (Xt2*(2*(-
         Mu2 + mU32)*pow2(sbeta) + pow2(cbeta)*(3*(-2*mU32 + Xb2)*pow2(sbeta) +
         mQ32*(2 + 6*pow2(sbeta)))))/(pow2(cbeta)*pow2(mQ32 - mU32)*pow2(sbeta))
-        + (4*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu)*pow3(Xt))/(cbeta*sbeta*pow3(mQ32 -
+        + (4*(mQ32 - 2*Mu2 + mU32)*Mu*pow3(Xt))/(cbeta*sbeta*pow3(mQ32 -
         mU32)) + (Xt4*((Mu2 - mU32)*(2*mQ32 - 3*Mu2 + mU32) + 3*pow2(cbeta)*(
         mD32*Xb2 - 2*mU32*Xb2 + mQ32*(-2*mU32 + Xb2) + pow4(mQ3) + pow4(mU3))))
         /(pow2(cbeta)*pow4(mQ32 - mU32))) + 3*phixyz(mA2,mQ32,mD32)*((2*Xt2*Yb*
@@ -2806,7 +2804,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         /pow2(sbeta) - (2*(-mD32 + mQ32 + Xb2)*(mQ32 - mU32 - Xt2)*pow2(cbeta)*
         pow2(mA2 + mQ32 - mU32)*pow2(Yt))/(mQ32*(-mD32 + mQ32)*(mQ32 - mU32)*
         deltaxyz(mA2,mU32,mQ32)*pow2(sbeta)) + (2*pow2(cbeta)*(-4 + pow2(Yt)/
-        mQ32))/pow2(sbeta) + (16*(2*cbeta*std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta)
+        mQ32))/pow2(sbeta) + (16*(2*cbeta*Mu + sbeta*(Yb + Yt)*pow2(cbeta)
         + Yb*pow3(sbeta))*pow3(Xt))/(sbeta*pow2(cbeta)*pow2(mQ32 - mU32)) + (2*
         Xt2*((Xb2*(2*mD32*pow2(sbeta) - 2*mQ32*pow2(sbeta) + pow2(cbeta)*pow2(
         Yt)))/(mD32 - mQ32) + (2*mQ32*pow2(cbeta)*(mU32*(1 - 2*pow2(sbeta)) +
@@ -2820,8 +2818,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         cbeta) + (2*Xb2*(Mu2*(mD32*pow2(sbeta) - pow2(cbeta)*pow2(Yt)) - mQ32*(
         mD32*pow2(sbeta) + Mu2*(2 + 2*pow2(cbeta) + 3*pow2(sbeta)) - pow2(
         cbeta)*pow2(Yt)) + (-2 + 2*pow2(cbeta) + 3*pow2(sbeta))*pow4(mQ3)))/(
-        mQ32*(-mD32 + mQ32)*(mQ32 - Mu2)*pow2(sbeta)) + (Xt4*((-16*pow(Mu2,
-        1.5)*(mQ32 - mU32)*Xb)/(cbeta*(-mD32 + Mu2)*(-mQ32 + Mu2)*sbeta) - (2*(
+        mQ32*(-mD32 + mQ32)*(mQ32 - Mu2)*pow2(sbeta)) + (Xt4*((-16*pow3(Mu)*(mQ32 - mU32)*Xb)/(cbeta*(-mD32 + Mu2)*(-mQ32 + Mu2)*sbeta) - (2*(
         5*mQ32 + mU32)*Xb2)/mQ32 - (pow4(mD3)*(mU32*(-4*Mu2 + pow2(sbeta)*pow2(
         Yb)) + mQ32*(-32*Mu2 + mU32*(6 - 16*pow2(cbeta)) + 11*pow2(sbeta)*pow2(
         Yb)) + 2*(3 + 8*pow2(cbeta))*pow4(mQ3)) - 2*mD32*Mu2*(mU32*(-Mu2 +
@@ -2834,8 +2831,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         sbeta))/pow2(cbeta) + (24*Mu2)/((Mu2 - mU32)*pow2(sbeta)) - (6*pow2(
         cbeta)*(2*mQ32 - pow2(Yt)))/(mQ32*pow2(sbeta)) + (6*Xb2*(2*mQ32 + pow2(
         cbeta)*pow2(Yt)))/(mQ32*(-mD32 + mQ32)*pow2(sbeta)) + (24*Xt*(2*cbeta*
-        std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(sbeta)))/((mQ32 - mU32)
-        *sbeta*pow2(cbeta)) - (24*(mQ32 + 3*mU32)*(2*cbeta*std::abs(Mu) + sbeta*(Yb
+        Mu + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(sbeta)))/((mQ32 - mU32)
+        *sbeta*pow2(cbeta)) - (24*(mQ32 + 3*mU32)*(2*cbeta*Mu + sbeta*(Yb
         + Yt)*pow2(cbeta) + Yb*pow3(sbeta))*pow3(Xt))/(sbeta*pow2(cbeta)*pow3(
         mQ32 - mU32)) - (6*(-mD32 + mQ32 + Xb2)*(mQ32 - mU32 - Xt2)*pow2(cbeta)
         *pow2(Yt)*(-2*mA2*mU32 + pow4(mA) - pow4(mQ3) + pow4(mU3)))/(mQ32*(-
@@ -2859,12 +2856,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(sbeta)*(2*mA2 + 5*pow2(Yb))) - (3 + 12*pow2(cbeta) + pow2(sbeta))*
         pow4(mQ3)))/((mD32 - Mu2)*pow2(cbeta)) + (4*Xb2*(-7*mQ32*mU32 + mD32*(
         mQ32 + 5*mU32) + pow4(mU3)))/(mD32 - mQ32)))/pow4(mQ32 - mU32) + (6*
-        lmUMR*(16*cbeta*(mQ32 - Mu2)*pow(Mu2,1.5)*(mQ32 - mU32)*pow2(mD32 -
-        Mu2)*pow3(Xt) + 2*Xt2*pow3(mQ32 - mU32)*(4*cbeta*pow(Mu2,1.5)*(-mD32
+        lmUMR*(16*cbeta*(mQ32 - Mu2)*pow3(Mu)*(mQ32 - mU32)*pow2(mD32 -
+        Mu2)*pow3(Xt) + 2*Xt2*pow3(mQ32 - mU32)*(4*cbeta*pow3(Mu)*(-mD32
         + Mu2)*Xb + (mQ32 - Mu2)*sbeta*pow4(Mu)) + Xt4*(4*cbeta*(mD32 - Mu2)*
-        pow(Mu2,1.5)*(mQ32 - mU32)*(mQ32 + mU32)*Xb + (mQ32 - Mu2)*sbeta*
+        pow3(Mu)*(mQ32 - mU32)*(mQ32 + mU32)*Xb + (mQ32 - Mu2)*sbeta*
         pow4(Mu)*(-12*mD32*Mu2 + 6*pow4(mD3) - pow4(mQ3) + 6*pow4(Mu) + pow4(
-        mU3))) + 4*cbeta*(mD32 - Mu2)*pow(Mu2,1.5)*Xb*pow4(mQ32 - mU32) + (-
+        mU3))) + 4*cbeta*(mD32 - Mu2)*pow3(Mu)*Xb*pow4(mQ32 - mU32) + (-
         mQ32 + Mu2)*sbeta*pow4(Mu)*pow4(mQ32 - mU32)))/((mQ32 - Mu2)*sbeta*
         pow2(cbeta)*pow2(mD32 - Mu2)*pow4(mQ32 - mU32)) + 6*log(mA2/MR2)*(-2 +
         pow2(cbeta)/pow2(sbeta) + (2*((-2*mD32*Yb + mQ32*Yb + mU32*Yb - mQ32*Yt
@@ -2878,19 +2875,18 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mD32 + 2*mQ32 - 3*mU32 - Xb*Yb + Xb*Yt)*pow2(cbeta)*pow2(sbeta) + (mA2
         - mD32 + mQ32 - 2*Xb*Yt - pow2(Yt))*pow4(cbeta) - (mA2 + mD32 + mQ32 -
         2*mU32 + pow2(Yb))*pow4(sbeta)))/(pow2(cbeta)*pow2(mQ32 - mU32)*pow2(
-        sbeta))) + 6*lmQ3MR*(2 - (4*pow(Mu2,1.5)*Xb)/(cbeta*(-mD32 + Mu2)*(-
+        sbeta))) + 6*lmQ3MR*(2 - (4*pow3(Mu)*Xb)/(cbeta*(-mD32 + Mu2)*(-
         mQ32 + Mu2)*sbeta) - 2/pow2(sbeta) + pow2(cbeta)/pow2(sbeta) + (2*(4*
-        cbeta*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu) + sbeta*(2*mD32*Yb + mQ32*Yb +
+        cbeta*(mQ32 - 2*Mu2 + mU32)*Mu + sbeta*(2*mD32*Yb + mQ32*Yb +
         mU32*Yb + 3*mQ32*Yt + mU32*Yt + 2*Xb*Yb*Yt - 2*mA2*(Yb + Yt))*pow2(
         cbeta) + (-2*mA2 + 2*mD32 + mQ32 + mU32)*Yb*pow3(sbeta))*pow3(Xt))/(
         sbeta*pow2(cbeta)*pow3(mQ32 - mU32)) + ((2*mD32*Mu2)/pow2(mD32 - Mu2) +
         pow2(sbeta) - pow4(mD3)/pow2(mD32 - Mu2))/pow2(cbeta) - (2*Xt*(4*cbeta*
-        sbeta*std::abs(Mu) + (Xb + Yb + Yt)*pow2(cbeta)*pow2(sbeta) + (Xb + Yt)*
+        sbeta*Mu + (Xb + Yb + Yt)*pow2(cbeta)*pow2(sbeta) + (Xb + Yt)*
         pow4(cbeta) + Yb*pow4(sbeta)))/((mQ32 - mU32)*pow2(cbeta)*pow2(sbeta))
         + (Xt2*(-2*mD32 - 6*mU32 + 2*Xb2 + mQ32*(4 + 2/pow2(sbeta)) - (pow2(
-        cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt)))/pow2(sbeta) + (2*Xb*(4*pow(
-        Mu2,1.5)*mU32*sbeta + cbeta*Mu2*(-mD32 + Mu2)*(Yt*pow2(cbeta) + (-Yb +
-        Yt)*pow2(sbeta)) - mQ32*(4*pow(Mu2,1.5)*sbeta + cbeta*(mD32 - Mu2)*(
+        cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt)))/pow2(sbeta) + (2*Xb*(4*pow3(Mu)*mU32*sbeta + cbeta*Mu2*(-mD32 + Mu2)*(Yt*pow2(cbeta) + (-Yb +
+        Yt)*pow2(sbeta)) - mQ32*(4*pow3(Mu)*sbeta + cbeta*(mD32 - Mu2)*(
         Yb - Yt)*pow2(sbeta) + (-mD32 + Mu2)*Yt*pow3(cbeta))))/(cbeta*(mD32 -
         Mu2)*(-mQ32 + Mu2)*pow2(sbeta)) + (-(mD32*Mu2*(4*mU32 + Mu2*(-10 +
         pow2(sbeta)) - 2*mQ32*(-2 + pow2(sbeta)) + 2*pow2(sbeta)*(mA2 + pow2(
@@ -2898,7 +2894,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mA2*pow2(sbeta) + pow2(sbeta)*pow2(Yb))*pow4(mD3) + (-4*Mu2 + 4*mU32 +
         pow2(sbeta)*(mA2 - mQ32 + pow2(Yb)))*pow4(Mu) - (-2 + pow2(sbeta))*
         pow6(mD3))/(pow2(cbeta)*pow2(mD32 - Mu2))))/pow2(mQ32 - mU32) + (Xt4*((
-        -4*pow(Mu2,1.5)*(mQ32 - mU32)*(mQ32 + mU32)*Xb)/(cbeta*(-mD32 + Mu2)*
+        -4*pow3(Mu)*(mQ32 - mU32)*(mQ32 + mU32)*Xb)/(cbeta*(-mD32 + Mu2)*
         (-mQ32 + Mu2)*sbeta) - 2*(mQ32 + 2*mU32)*Xb2 - (pow4(Mu)*(-8*Mu2*mU32 -
         3*mA2*pow2(sbeta)*pow2(Yb) + 2*mU32*pow2(sbeta)*pow2(Yb) + mQ32*(-4*Mu2
         + 4*mU32 + pow2(sbeta)*pow2(Yb)) + 6*pow4(Mu) + 4*pow2(cbeta)*(pow4(
@@ -2920,12 +2916,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mD32 - mQ32)*pow2(sbeta)) - (3*pow2(sbeta)*pow2(mQ32 - mU32 + Xt2)*
         pow2(Yb)*(-2*mA2*mQ32 + pow4(mA) - pow4(mD3) + pow4(mQ3)))/(mQ32*
         deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)*pow2(mQ32 - mU32)) + (12*lmUMR*((4*
-        cbeta*(mD32 - Mu2)*pow(Mu2,1.5)*Xb)/((mD32 - mQ32)*sbeta) + pow4(Mu))
+        cbeta*(mD32 - Mu2)*pow3(Mu)*Xb)/((mD32 - mQ32)*sbeta) + pow4(Mu))
         )/(pow2(cbeta)*pow2(mD32 - Mu2)) + 6*lmQ3MR*(2 + pow2(cbeta)/pow2(
         sbeta) + (2*Xb*Xt*((mD32 - mQ32 + Xb*Yt)*pow2(cbeta) + (mD32 - mQ32)*
         pow2(sbeta)))/(pow2(mD32 - mQ32)*pow2(sbeta)) + (Xb2*(2*mD32*(-1 +
         pow2(sbeta)) + pow2(cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt))))/(pow2(mD32
-        - mQ32)*pow2(sbeta)) + (2*Xb*(-4*pow(Mu2,1.5)*sbeta + cbeta*(mD32 -
+        - mQ32)*pow2(sbeta)) + (2*Xb*(-4*pow3(Mu)*sbeta + cbeta*(mD32 -
         Mu2)*(Yb + Yt)*pow2(sbeta) + (mD32 - Mu2)*Yt*pow3(cbeta)))/(cbeta*(mD32
         - mQ32)*(mD32 - Mu2)*pow2(sbeta)) + (pow2(sbeta) - (2*pow4(Mu))/pow2(
         mD32 - Mu2))/pow2(cbeta)) - (6*log(mA2/MR2)*(2*(mD32 - mQ32)*(mD32 -
@@ -2933,7 +2929,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Xb*(Xb - 2*(Xt + Yt)) + Xb2*(-mA2 + Yt*(2*Xt + Yt)) - mD32*(2*mQ32 +
         Xb*(Xb - 2*(Xt + Yt))) + pow4(mD3) + pow4(mQ3)) + pow2(mD32 - mQ32)*
         pow4(sbeta)))/(pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) + Xt4*((48*
-        mD32*Xb*std::abs(Mu))/(cbeta*(mD32 - mQ32)*(mD32 - Mu2)*sbeta*pow2(mQ32 -
+        mD32*Xb*Mu)/(cbeta*(mD32 - mQ32)*(mD32 - Mu2)*sbeta*pow2(mQ32 -
         mU32)) + (6*mD32*Xb2)/((mD32 - mQ32)*pow2(-(mQ3*mU32) + pow3(mQ3))) - (
         3*(2*mD32*Mu2*(mU32*(Mu2 - pow2(sbeta)*pow2(Yb)) + mQ32*(5*Mu2 + 4*mU32
         + pow2(sbeta)*pow2(Yb)) - 4*pow4(mQ3)) + pow4(mD3)*(mU32*(-4*Mu2 +
@@ -2947,13 +2943,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Mu2)*pow2(sbeta)*(Xb*Yt*pow2(cbeta) + (mD32 - mQ32)*(pow2(cbeta) +
         pow2(sbeta)))*pow3(Xt) + Xb2*pow2(cbeta)*pow2(mD32 - Mu2)*(2*mD32 +
         pow2(cbeta)*pow2(Yt))*pow4(mQ32 - mU32) - 2*cbeta*(mD32 - mQ32)*(mD32 -
-        Mu2)*Xb*(cbeta*Mu2*Yt*(pow2(cbeta) + pow2(sbeta)) - mD32*(2*sbeta*std::abs(
-        Mu) + cbeta*Yt*pow2(sbeta) + Yt*pow3(cbeta)))*pow4(mQ32 - mU32) + pow2(
+        Mu2)*Xb*(cbeta*Mu2*Yt*(pow2(cbeta) + pow2(sbeta)) - mD32*(2*sbeta*Mu + cbeta*Yt*pow2(sbeta) + Yt*pow3(cbeta)))*pow4(mQ32 - mU32) + pow2(
         mD32 - mQ32)*(2*pow2(cbeta)*pow2(mD32 - Mu2)*pow2(sbeta) + pow2(mD32 -
         Mu2)*pow4(cbeta) + pow2(sbeta)*(-2*mD32*Mu2*(-1 + pow2(sbeta)) + (-1 +
         pow2(sbeta))*pow4(mD3) + pow2(sbeta)*pow4(Mu)))*pow4(mQ32 - mU32) +
         sbeta*Xt4*(4*cbeta*mD32*(mD32 - mQ32)*(mD32 - Mu2)*(mQ32 - mU32)*(mQ32
-        + mU32)*Xb*std::abs(Mu) - 2*mD32*(mD32 - mU32)*(3*mD32 - 2*mQ32 - mU32)*
+        + mU32)*Xb*Mu - 2*mD32*(mD32 - mU32)*(3*mD32 - 2*mQ32 - mU32)*
         sbeta*Xb2*pow2(cbeta)*pow2(mD32 - Mu2) - sbeta*pow2(mD32 - mQ32)*((-3*
         mA2 + mQ32 + 2*mU32)*pow2(sbeta)*pow2(Yb)*pow4(Mu) + pow4(mD3)*(-3*mA2*
         pow2(sbeta)*pow2(Yb) + 2*mU32*pow2(sbeta)*pow2(Yb) + mQ32*(-4*Mu2 +
@@ -2967,8 +2962,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         sbeta)*pow4(mD3))) - 2*cbeta*(mD32 - mQ32)*(mD32 - Mu2)*Xb*(-(cbeta*
         Mu2*(-(mU32*Yb*pow2(sbeta)) + mQ32*Yt*(pow2(cbeta) + pow2(sbeta)) +
         mA2*(-(Yt*pow2(cbeta)) + (Yb - Yt)*pow2(sbeta)))) - mD32*(mU32*sbeta*(
-        cbeta*sbeta*Yb + 4*std::abs(Mu)) + cbeta*(mA2 + Mu2)*(Yt*pow2(cbeta) + (-Yb
-        + Yt)*pow2(sbeta)) - mQ32*(4*sbeta*std::abs(Mu) + cbeta*Yt*pow2(sbeta) + Yt*
+        cbeta*sbeta*Yb + 4*Mu) + cbeta*(mA2 + Mu2)*(Yt*pow2(cbeta) + (-Yb
+        + Yt)*pow2(sbeta)) - mQ32*(4*sbeta*Mu + cbeta*Yt*pow2(sbeta) + Yt*
         pow3(cbeta))) + (cbeta*(-Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))*pow4(
         mD3)) + pow2(mD32 - mQ32)*(2*(mA2 - mD32 - mQ32)*pow2(cbeta)*pow2(mD32
         - Mu2)*pow2(sbeta) + (mA2 - mD32 - mQ32)*pow2(mD32 - Mu2)*pow4(cbeta) -
-- 
2.43.0


From 530e701ea2ee0aae7b27ff0de828ae8ee6076f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 18/46] fix: use the correct sign of Xb in the O(ab*as)
 threshold correction to lambda

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f7fb461..661537a 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -927,7 +927,7 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
    const double mQ3 = std::sqrt(mQ32);
    const double mD3 = std::sqrt(mD32);
    const double m3 = std::sqrt(m32);
-   const double Xb = calcXb();
+   const double Xb = -calcXb(); // sign convention of the expressions below
    const double Xb2 = pow2(Xb);
    const double eps = 0.01*mQ3;
    const double lmQ3MR = log(mQ32) - lMR;
-- 
2.43.0


From 8f7ec167a1246a78998a4f8a8119a11322b3b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 19/46] fix: remove spurious mixing terms from the O(yb^2) and
 O(yt^2) threshold corrections to yb

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 661537a..b7f5f36 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -763,7 +763,7 @@ double ThresholdCalculator::getDeltaYbYb(int omitLogs) const
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
    return (6*lmUMR + 4*F6(mD3/p.mu) + 8*F6(mQ3/p.mu) - (2*Xb2*F5(mQ3/mD3)*pow2(cbeta))/
-        (mD3*mQ3*pow2(sbeta)) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
+        (mD3*mQ3) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
 }
 
 double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
@@ -775,8 +775,6 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    const double MR2 = pow2(p.scale);
    const double mU3 = std::sqrt(p.mu2(2,2));
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mD3 = std::sqrt(p.md2(2,2));
-   const double Xb2 = pow2(calcXb());
    const double Xt = calcXt();
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
    const double lmAMR = omitLogs*std::log(mA2/MR2);
@@ -784,8 +782,7 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    return (2 * lmUMR + 4 * F6(mU3 / p.mu) +
            (4 * tbe * Xt * F9(mQ3 / p.mu, mU3 / p.mu)) / p.mu +
            (-1 + 2 * lmAMR) * pow2(cbeta) -
-           (2 * Xb2 * F5(mQ3 / mD3) * pow2(cbeta)) / (mD3 * mQ3 * pow2(sbeta)) -
-           (4 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
+           (2 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
            8 * (-1 + lmAMR) * pow2(sbeta)) /
           8.;
 }
-- 
2.43.0


From 199e4b7c158d9fc5882e9bd3f2445e7b32e2f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 20/46] fix: remove spurious constants proportional to cos^4(2
 beta) from the one-loop O(g^4) effective-theory corrections

---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index b966552..9189715 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -340,7 +340,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT1Loop(int omitSMLogs, int omitMSSMLogs) c
              40 * dlambdaregg12g22 - 36 * lmMt + 40 * dvg12 * pow2(c2beta) +
              24 * dvg22 * pow2(c2beta) + 36 * lmMt * pow2(c2beta) -
              12 * lmMt * Xi * pow2(c2beta) -
-             6 * bbwDR * (-2 + pow2(c2beta)) * pow2(c2beta) - 6 * pow4(c2beta) -
+             6 * bbwDR * (-2 + pow2(c2beta)) * pow2(c2beta) -
              27 * bbhDR * pow4(c2beta) - 36 * lmMt * pow4(c2beta) -
              3 * bbzDR * (12 - 4 * pow2(c2beta) + pow4(c2beta)))) /
            80.),
@@ -351,7 +351,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT1Loop(int omitSMLogs, int omitMSSMLogs) c
                          100 * dlambdaregg14 - 27 * lmMt) +
                    6 * (40 * dg1g1 - 40 * dvg12 + 3 * lmMt * (-3 + Xi)) *
                       pow2(c2beta) +
-                   9 * (9 * bbhDR + 2 * (1 + bbwDR + 6 * lmMt)) * pow4(c2beta) +
+                   9 * (9 * bbhDR + 2 * (bbwDR + 6 * lmMt)) * pow4(c2beta) +
                    9 * bbzDR * (12 - 4 * pow2(c2beta) + pow4(c2beta)))) /
            800.),
        "dmh2g14"));
@@ -360,7 +360,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT1Loop(int omitSMLogs, int omitMSSMLogs) c
           (-(v2 * (-24 - 16 * dlambdachig24 - 16 * dlambdag24 -
                    16 * dlambdaregg24 + 36 * lmMt + 16 * dg2g2 * pow2(c2beta) -
                    16 * dvg22 * pow2(c2beta) - 18 * lmMt * pow2(c2beta) +
-                   6 * lmMt * Xi * pow2(c2beta) + 2 * pow4(c2beta) +
+                   6 * lmMt * Xi * pow2(c2beta) +
                    9 * bbhDR * pow4(c2beta) + 12 * lmMt * pow4(c2beta) +
                    2 * bbwDR * (12 - 4 * pow2(c2beta) + pow4(c2beta)) +
                    bbzDR * (12 - 4 * pow2(c2beta) + pow4(c2beta)))) /
-- 
2.43.0


From fe1b1e975403b35e7dfad0e7210d3058a9493859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 21/46] fix: correct the coefficients of the squared logarithms
 in the O(ab) two-loop effective-theory corrections

---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index 9189715..43fa58d 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -601,8 +601,8 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
        "dmh2yt4g32"));
 
     const double dmh2yb4g32 = CALC_IF(orders.at(CouplingOrders::G32YB4), discardNaN(
-          ((dlambdayb4g32 + 16 * (3 * B00DR * (dybas + 16 * lmMt) +
-                                  lmMt * (-2 + 3 * dybas + 24 * lmMt))) *
+          ((dlambdayb4g32 + 16 * (3 * B00DR * (dybas + 4 * lmMt) +
+                                  lmMt * (-2 + 3 * dybas + 6 * lmMt))) *
            v2 * pow4(cbeta)) /
           2.,
        "dmh2yb4g32"));
@@ -611,10 +611,10 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
           (-((-144 * dybyb * (B00DR + lmMt) +
               pow2(cbeta) *
                  (-49 - 3 * dlambdayb6 + 72 * dvyb2 - 72 * B00DR * dvyb2 -
-                  60 * lmbMt + 234 * lmMt + 1296 * B00DR * lmMt -
+                  60 * lmbMt + 234 * lmMt + 324 * B00DR * lmMt -
                   72 * dvyb2 * lmMt +
                   dlambdayb4 * (-9 + 9 * B00DR - 6 * dvyb2 + 9 * lmMt) +
-                  36 * pow2(lmbMt) + 648 * pow2(lmMt) - 6 * pow2(Pi))) *
+                  36 * pow2(lmbMt) + 162 * pow2(lmMt) - 6 * pow2(Pi))) *
              v2 * pow4(cbeta)) /
            6.),
        "dmh2yb6"));
@@ -631,10 +631,10 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
        "dmh2yt6"));
 
     const double dmh2yb4ytau2 = CALC_IF(orders.at(CouplingOrders::YTAU2YB4), discardNaN(
-          (((dlambdayb4ytau2 - 96 * B00DR * lmMt -
+          (((dlambdayb4ytau2 - 24 * B00DR * lmMt -
              dlambdayb4 * (-1 + B00DR + lmMt) +
              2 * dvytau2 * (-12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
-             48 * pow2(lmMt)) *
+             12 * pow2(lmMt)) *
             v2 * pow6(cbeta)) /
            2.),
        "dmh2yb4ytau2"));
@@ -666,7 +666,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
           (((48 * dybyt * lmMt +
              (dlambdayt2yb4 + dlambdayb4 * (2 + 2 * dvyt2 - 3 * lmMt) +
               3 * (-15 + 8 * lmbMt + 8 * dvyt2 * (-1 + lmMt) + 18 * lmMt -
-                   24 * pow2(lmMt) - 2 * pow2(Pi))) *
+                   6 * pow2(lmMt) - 2 * pow2(Pi))) *
                 pow2(sbeta) +
              12 * B00DR * (4 * dybyt + (2 * dvyt2 - 9 * lmMt) * pow2(sbeta))) *
             v2 * pow4(cbeta)) /
-- 
2.43.0


From b40f18b5dce3dc922b24d81594f05a3957906fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 22/46] fix: use the correct sign of mu relative to the
 trilinear couplings in the O(at*ab) two-loop threshold corrections to lambda

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index b7f5f36..62ea56a 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2203,11 +2203,14 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double Xt = calcXt();
-   const double Yt = calcYt();
-   const double Xb = calcXb();
-   const double Yb = calcYb();
-   const double Mu = p.mu;
+   // the expressions below hold for Mu > 0 in the convention in which mu
+   // has the opposite sign; only the signs relative to Mu are physical
+   const double sgn = p.mu > 0 ? -1 : 1;
+   const double Xt = sgn*calcXt();
+   const double Yt = sgn*calcYt();
+   const double Xb = sgn*calcXb();
+   const double Yb = sgn*calcYb();
+   const double Mu = std::abs(p.mu);
    const double Mu2 = pow2(Mu);
    const double Xt2 = pow2(Xt);
    const double mA2 = pow2(mA);
@@ -2603,11 +2606,14 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double Xt = calcXt();
-   const double Yt = calcYt();
-   const double Xb = calcXb();
-   const double Yb = calcYb();
-   const double Mu = p.mu;
+   // the expressions below hold for Mu > 0 in the convention in which mu
+   // has the opposite sign; only the signs relative to Mu are physical
+   const double sgn = p.mu > 0 ? -1 : 1;
+   const double Xt = sgn*calcXt();
+   const double Yt = sgn*calcYt();
+   const double Xb = sgn*calcXb();
+   const double Yb = sgn*calcYb();
+   const double Mu = std::abs(p.mu);
    const double Mu2 = pow2(Mu);
    const double Xt2 = pow2(Xt);
    const double Xt4 = pow2(Xt2);
-- 
2.43.0


From 506e33a74c805156c43a62b045e7111d109066e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 23/46] fix: normalise the O(at*ab) threshold corrections to
 lambda for degenerate masses as in the general case

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 62ea56a..9225da0 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2245,7 +2245,7 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         8.407868305684794*Xb2 + Xt*(8.96939551822411*Xt - 7.0078102449377395*Yb
         - 7.0078102449377395*Yt) + Xb*(-7.0078102449377395*Xt + 
         5.0462249716513705*Yb + 5.0462249716513705*Yt))*pow2(sbeta)*pow4(M) + (
-        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
+        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow4(cbeta)*pow2(sbeta));
    }
 
    return -6 + (48*Xb*Mu*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
@@ -2648,7 +2648,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(sbeta) + Xb2*(-2.2423488795560274 + 8.96939551822411*pow2(sbeta))
         + Xt*((5.0462249716513705*Yb + 5.0462249716513705*Yt)*pow2(sbeta) + Xt*
         (-2.2423488795560274 + 9.530922730763425*pow2(sbeta))))*pow4(M) + (-
-        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
+        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow2(cbeta)*pow4(sbeta));
    }
 
    return -4 + (48*Xb*Mu*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
-- 
2.43.0


From 5246479e5dca7464feb97a994bc95a821beb53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 24/46] fix: correct the powers of sin(beta), cos(beta) in the
 O(ab*atau) two-loop threshold corrections to lambda

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 9225da0..0ad07f3 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -3021,24 +3021,23 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
    const double mL3 = std::sqrt(p.ml2(2,2));
    const double mE3 = std::sqrt(p.me2(2,2));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(cbeta*sbeta*pow4(mL3));
+      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(pow2(cbeta)*pow4(mL3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (-4*Xb*Xtau*(-6*pow2(mL3) + Xtau2)*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(
-        mD32/mQ32)))/(cbeta*(mD32 - mQ32)*sbeta*pow4(mL3));
+        mD32/mQ32)))/(pow2(cbeta)*(mD32 - mQ32)*pow4(mL3));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-24*lmQ3MR*Xb*Xtau*(2*(-mE32 + mL32)*Xtau2 + log(mE32/mL32)*(mL32*Xtau2
-        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(cbeta*sbeta*pow3(
+        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(pow2(cbeta)*pow3(
         mE32 - mL32));
    }
 
@@ -3046,7 +3045,7 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
       = (-24*Xb*Xtau*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(mD32/mQ32))*(2*
         Xtau2*(-pow2(mE3) + pow2(mL3)) + log(pow2(mE3)/pow2(mL3))*(Xtau2*pow2(
         mL3) + pow2(mE3)*(Xtau2 + 2*pow2(mL3)) - pow4(mE3) - pow4(mL3))))/(
-        cbeta*(mD32 - mQ32)*sbeta*pow3(pow2(mE3) - pow2(mL3)));
+        pow2(cbeta)*(mD32 - mQ32)*pow3(pow2(mE3) - pow2(mL3)));
 
    return exact;
 }
@@ -3067,32 +3066,31 @@ double ThresholdCalculator::getDeltaLambdaYtau2Yb4(int omitLogs) const
    const double lmD3MR = omitLogs*std::log(pow2(mD3)/pow2(p.scale));
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(cbeta*sbeta*pow4(mQ3));
+      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(pow2(cbeta)*pow4(mQ3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (24*lmL3MR*Xb*Xtau*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*Xb2 + mD32*(2*mQ32
         + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR*(-(mQ32*Xb2) - mD32*(2*mQ32 +
-        Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*sbeta*pow3(mD32 - mQ32));
+        Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(cbeta)*pow3(mD32 - mQ32));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-4*(-mE32 + lmE3MR*mE32 + mL32 - lmL3MR*mL32)*Xb*(-6*mQ32 + Xb2)*Xtau)/(
-        cbeta*(mE32 - mL32)*sbeta*pow4(mQ3));
+        pow2(cbeta)*(mE32 - mL32)*pow4(mQ3));
    }
 
    const double exact
       = (24*Xb*Xtau*(-pow2(mE3) + lmE3MR*pow2(mE3) + pow2(mL3) -
         lmL3MR*pow2(mL3))*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*
         Xb2 + mD32*(2*mQ32 + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR
-        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*
-        sbeta*(pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
+        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(cbeta)*
+        (pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
 
    return exact;
 }
-- 
2.43.0


From bea4d163dd5ff684e1ba140eb05c2709c7acd99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 25/46] fix: correct normalisation and logarithms of the
 O(atau^2) threshold correction to lambda for degenerate masses

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 0ad07f3..5761713 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1796,11 +1796,11 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
      const double lMS = log(mL32/MR2);
      const double M = mL3;
      const double Xtau2 = pow2(Xtau);
-     return (pow2(cbe)*(cbe*(4.994969600000008 - 48.*lMS)*sbe*pow3(M)*pow3(Xtau)
-     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(99. - 40.5*pow2(sbe))
+     return (cbe*(4.994969600000008 - 48.*lMS)*sbe*pow3(M)*pow3(Xtau)
+     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(51. - 40.5*pow2(sbe))
      + 25.88317440000001*pow2(sbe)) + (-96. + 6.75*lMS)*pow4(cbe) + lMS*(74.25
      - 99.*pow2(sbe) + 6.75*pow4(sbe))) + pow2(M)*(-0.12437120000000013
-     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-22.5 + 4.5*pow2(sbe)))
+     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-14.5 + 4.5*pow2(sbe)))
      + (39. - 0.75*lMS)*pow4(cbe) + lMS*(-18.75 + 22.5*pow2(sbe)
      - 0.75*pow4(sbe)))*pow4(Xtau) + cbe*(4.507545599999993 + 108.*lMS)*sbe
      *Xtau*pow5(M) + cbe*(-0.24874240000000025 + 6.*lMS)*M*sbe*pow5(Xtau)
@@ -1808,7 +1808,7 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
      + lMS*(-30. + 58.5*pow2(sbe))) + (54. - 9.75*lMS + 18.*pow2(lMS))
      *pow4(cbe) + lMS*(-2.25 + 30.*pow2(sbe) - 9.75*pow4(sbe)))*pow6(M)
      + (lMS*(1.5 - 1.5*pow2(sbe)) + pow2(cbe)*(1.5*lMS - 0.12437120000000013
-     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau)))/pow6(M);
+     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau))/(3*pow4(cbe)*pow6(M));
    }
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
-- 
2.43.0


From 074d0b30dd7180a872af6e03431e93b16fef9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 26/46] fix: pass the arguments of taubot in the right order:
 the (1,2) and (2,2) entries of the O(ab*atau) two-loop correction were
 interchanged

---
 source/himalaya/mh2l/DSZHiggs.cpp | 2 +-
 source/himalaya/mh2l/DSZHiggs.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index c36674d..1530e3d 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -399,7 +399,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
            &mstau12, &mstau22, &msb12, &msb22,
            &sintau, &costau, &sxb, &cxb,
            &scale2, &mu, &tanb, &vev2,
-           &result(0,0), &result(1,1), &result(0,1));
+           &result(0,0), &result(0,1), &result(1,1));
 
    result(1,0) = result(0,1);
 
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index 6f4b677..cc62d7d 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -102,7 +102,7 @@ int taubot_(double * t, double * b,
             double * T1, double * T2, double * B1, double * B2,
             double * st, double * ct, double * sb, double * cb,
             double * q, double * mu, double * tanb, double * vv,
-            double * S11, double * S22, double * S12);
+            double * S11, double * S12, double * S22);
 
 /**
  * Two-loop O(a_t a_s) corrections to the CP-odd Higgs mass in the
-- 
2.43.0


From fb182f25ae151f89fa2702bc3e5978ec69c38ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 27/46] fix: the O(ab) threshold correction to ytau is due to
 the sbottoms (X_b, m_D, cos(beta)), not to the stops

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 5761713..1fd1dbf 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -903,12 +903,12 @@ double ThresholdCalculator::getDeltaVevG22(int /* omitLogs */) const
 
 double ThresholdCalculator::getDeltaYtauYb() const
 {
-   const double Xt2 = pow2(calcXt());
+   const double Xb2 = pow2(calcXb());
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
-   const double sbeta = calcSinBeta();
+   const double mD3 = std::sqrt(p.md2(2,2));
+   const double cbeta = calcCosBeta();
 
-   return -(pow2(sbeta)*Xt2*F5(mQ3/mU3))/(4*mQ3*mU3);
+   return -(pow2(cbeta)*Xb2*F5(mQ3/mD3))/(4*mQ3*mD3);
 }
 
 double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
-- 
2.43.0


From 46d7b1ce0f5cc904486f8a06b7cff1ad38395ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 28/46] fix: include the O(atau) threshold correction to yb in
 the O(ab^2*atau) corrections of the EFT calculation

---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index 43fa58d..fd4bcc1 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -632,8 +632,8 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
 
     const double dmh2yb4ytau2 = CALC_IF(orders.at(CouplingOrders::YTAU2YB4), discardNaN(
           (((dlambdayb4ytau2 - 24 * B00DR * lmMt -
-             dlambdayb4 * (-1 + B00DR + lmMt) +
-             2 * dvytau2 * (-12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
+             dlambdayb4 * (-1 + B00DR + lmMt) -
+             2 * dvytau2 * (12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
              12 * pow2(lmMt)) *
             v2 * pow6(cbeta)) /
            2.),
-- 
2.43.0


From dc7fe227e0a2690d23325ed39bd289f92b03c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 29/46] fix: set yb = ytau = 0 also in the couplings of the
 one-loop self energies of the only-alpha_t fixed-order calculation, not only
 in the masses

---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index 1846938..1c970df 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -125,8 +125,8 @@ MSSM_mass_eigenstates::MSSM_mass_eigenstates(const Parameters& pars_, bool only_
       orders.at(CouplingOrders::G32YB4) = 0;
 
       // re-calculate DR' masses for g1 = g2 = yb = ytau = 0
-      pars = make_gaugeless(pars_);
-      masses = make_3rd_gen(pars);
+      pars = make_3rd_gen(make_gaugeless(pars_));
+      masses = pars;
       masses.M2hh(0) = 0.;
    } else {
      orders.at(CouplingOrders::ONLY_AT_AS) = 0;
-- 
2.43.0


From 8787c4e2fab7f949f9347569f4d1add7dc7f48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 30/46] fix: shift the stop masses apart in the O(at^2)
 threshold correction: the shifted masses coincided for mU3^2 = 1.04*mQ3^2,
 where the result was numerically meaningless

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 1fd1dbf..087175f 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1398,8 +1398,10 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
       return getDeltaLambdaYt6_SUSYHD(omitLogs);
    }
 
-   mQ32 = p.mq2(2,2) * (1.02);
-   mU32 = p.mu2(2,2) * (0.98);
+   // shift the masses apart, so that they do not become degenerate
+   const double shift = mQ32 < mU32 ? -0.02 : 0.02;
+   mQ32 *= 1 + shift;
+   mU32 *= 1 - shift;
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
    const double Mu = p.mu * std::sqrt(1.03);
-- 
2.43.0


From 70745eefeda0bb051e2054429fb42f8a51d61756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 31/46] fix: compute the perturbative eigenvalue shifts from
 differences of matrix elements: the splitting was lost by cancellation (NaN,
 inf) for nearly degenerate matrices

---
 source/himalaya/mh2_fo/Linalg.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/himalaya/mh2_fo/Linalg.cpp b/source/himalaya/mh2_fo/Linalg.cpp
index 0f50896..ccdbfdb 100644
--- a/source/himalaya/mh2_fo/Linalg.cpp
+++ b/source/himalaya/mh2_fo/Linalg.cpp
@@ -49,7 +49,8 @@ std::tuple<V2,V2,V2,V2> fs_diagonalize_hermitian_perturbatively(
    // tree-level
    const auto a11 = m0(0,0), a12 = m0(0,1), a22 = m0(1,1);
    const auto c1 = a11 + a22;
-   const auto c2 = std::sqrt(pow2(a11) + 4*pow2(a12) - 2*a11*a22 + pow2(a22));
+   const auto da = a11 - a22;
+   const auto c2 = std::sqrt(pow2(da) + 4*pow2(a12));
 
    V2 mh2_0L;
    mh2_0L << 0.5*(c1 - c2), 0.5*(c1 + c2);
@@ -57,7 +58,8 @@ std::tuple<V2,V2,V2,V2> fs_diagonalize_hermitian_perturbatively(
    // 1-loop
    const auto b11 = m1(0,0), b12 = m1(0,1), b22 = m1(1,1);
    const auto c3 = b11 + b22;
-   const auto c4 = (a11*b11 - a22*b11 + 4*a12*b12 - a11*b22 + a22*b22)/c2;
+   const auto db = b11 - b22;
+   const auto c4 = (da*db + 4*a12*b12)/c2;
 
    V2 mh2_1L;
    mh2_1L << 0.5*(c3 - c4), 0.5*(c3 + c4);
@@ -65,9 +67,9 @@ std::tuple<V2,V2,V2,V2> fs_diagonalize_hermitian_perturbatively(
    // 2-loop
    const auto d11 = m2(0,0), d12 = m2(0,1), d22 = m2(1,1);
    const auto c5 = d11 + d22;
-   const auto c6 = 0.5*(pow2(b11) + 4*pow2(b12) - 2*b11*b22 + pow2(b22)
-                        - pow2(c4) + 2*a11*d11 - 2*a22*d11 + 8*a12*d12
-                        - 2*a11*d22 + 2*a22*d22)/c2;
+   const auto dd = d11 - d22;
+   const auto c6 = 0.5*(pow2(db) + 4*pow2(b12) - pow2(c4)
+                        + 2*da*dd + 8*a12*d12)/c2;
 
    V2 mh2_2L;
    mh2_2L << 0.5*(c5 - c6), 0.5*(c5 + c6);
@@ -75,11 +77,7 @@ std::tuple<V2,V2,V2,V2> fs_diagonalize_hermitian_perturbatively(
    // 3-loop
    const auto e11 = m3(0,0), e12 = m3(0,1), e22 = m3(1,1);
    const auto c7 = e11 + e22;
-   const auto c8 = 0.5/c2*(
-      2*(4*b12*d12 + b11*(d11 - d22) + b22*(-d11 + d22) + a11*e11 - a22*e11
-         + 4*a12*e12 - a11*e22 + a22*e22)
-      + (c4*(2*b11*b22 - 2*a11*d11 + 2*a22*d11 - 8*a12*d12 + 2*a11*d22
-             - 2*a22*d22 - pow2(b11) - 4*pow2(b12) - pow2(b22) + pow2(c4)))/c2);
+   const auto c8 = (4*b12*d12 + db*dd + da*(e11 - e22) + 4*a12*e12 - c4*c6)/c2;
 
    V2 mh2_3L;
    mh2_3L << 0.5*(c7 - c8), 0.5*(c7 + c8);
-- 
2.43.0


From 4c6fbe42c02caca3f344032b9b0ef31a7d85ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 32/46] fix: avoid cancellations in the Kaellen function of the
 two-loop Higgs corrections, which produce NaN for light fermions and nearly
 degenerate sfermion and higgsino masses

---
 source/himalaya/mh2l/DSZHiggs.f | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index b9a3694..b782d38 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5268,12 +5268,15 @@ c     phi function from eq. (A4)
       implicit none
       
       double precision x,y,z,delt
-      
-      if  (y==z) then
-         delt = x**2 - 2d0*(x*y + x*z )
-      else
-         delt = x**2 + y**2 + z**2 - 2d0*(x*y + x*z + y*z)
-      endif
+      double precision a,b,c
+
+c     sort, a <= b <= c, to avoid cancellations for a << b ~ c
+
+      a = min(x,y,z)
+      c = max(x,y,z)
+      b = max(min(x,y),min(max(x,y),z))
+
+      delt = (c - b)**2 + a*(a - 2d0*(b + c))
       
       return
       end
-- 
2.43.0


From d6bb6d485b320fc9b3aab4f9f48504af149133df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 33/46] fix: calculate the gaugeless masses of the only-alpha_t
 fixed-order calculation for yb = ytau = 0, as the sbottom masses and mixing,
 instead of combining the latter with the physical bottom mass

---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index 1c970df..6aa4db4 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -128,6 +128,7 @@ MSSM_mass_eigenstates::MSSM_mass_eigenstates(const Parameters& pars_, bool only_
       pars = make_3rd_gen(make_gaugeless(pars_));
       masses = pars;
       masses.M2hh(0) = 0.;
+      gaugeless = pars;
    } else {
      orders.at(CouplingOrders::ONLY_AT_AS) = 0;
    }
-- 
2.43.0


From 2207edf06f410a93a6ec9a8b6dd489bb0d60295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 34/46] fix: avoid division by zero in the two-loop O(ab*atau)
 corrections for vanishing sbottom or stau mixing

---
 source/himalaya/mh2l/DSZHiggs.f | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index b782d38..e9074e7 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5313,6 +5313,32 @@ c     just call the cdli2 routine
       return
       end
       
+*     
+***********************************************************************
+*     
+      
+c     moves a vanishing sine or cosine of a mixing angle away from zero
+
+      subroutine guardmix(s,c)
+      
+      implicit none
+      
+      double precision s,c
+      double precision, parameter :: eps = 1d-8
+      
+      if (dabs(s).lt.eps) then
+         s = sign(eps,s)
+         c = sign(dsqrt(1d0 - s*s),c)
+      endif
+      
+      if (dabs(c).lt.eps) then
+         c = sign(eps,c)
+         s = sign(dsqrt(1d0 - c*c),s)
+      endif
+      
+      return
+      end
+      
       
 c     computed in term of the "resummed" bottom (tau) Yukawa coupling.
 c     
@@ -5332,6 +5358,10 @@ c
      $     ,FAp
       double precision, parameter :: pi = 3.1415926535897932d0
       
+c     guards against NANs when sin theta or cos theta is zero
+      call guardmix(st,ct)
+      call guardmix(sb,cb)
+      
       mt = dsqrt(t)
       mb = dsqrt(b)
       
@@ -5397,6 +5427,10 @@ c
      $     ,FAp
       double precision, parameter :: pi = 3.1415926535897932d0
       
+c     guards against NANs when sin theta or cos theta is zero
+      call guardmix(st,ct)
+      call guardmix(sb,cb)
+      
       mt = dsqrt(t)
       mb = dsqrt(b)
       
-- 
2.43.0


From 556429b7977ea0a99e04e41337c87d9a56633b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:17 +0000
Subject: [PATCH 35/46] fix: avoid loss of all digits in the two-loop
 O((at+ab)^2) corrections for vanishing mixing of nearly degenerate squarks

---
 source/himalaya/mh2l/DSZHiggs.f | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index e9074e7..21867a9 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -41,9 +41,8 @@ c
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
       integer atat
-      double precision, parameter :: eps_st = 1d-5
+      double precision eps_st,eps_sb
       double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-8
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
@@ -54,6 +53,13 @@ c
       mt = dsqrt(t)
       mb = dsqrt(b)
 
+c     minimum sin theta; larger for nearly degenerate masses, where the
+c     numerical cancellations are stronger and X = (T1-T2)*s2t/2/mt small
+      eps_st = 1d-7*T1/max(dabs(T1-T2),eps_t1*T1)
+      eps_st = max(1d-5,min(1d-1,eps_st))
+      eps_sb = 1d-7*B1/max(dabs(B1-B2),eps_b1*B1)
+      eps_sb = max(1d-8,min(1d-1,eps_sb))
+
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
          if (st.ge.0.0d0) then
@@ -212,9 +218,8 @@ c     end of addition by ALEX
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
       integer atat
-      double precision, parameter :: eps_st = 1d-5
+      double precision eps_st,eps_sb
       double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-8
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
@@ -224,6 +229,13 @@ c     end of addition by ALEX
       
       mt = dsqrt(t)
       mb = dsqrt(b)
+
+c     minimum sin theta; larger for nearly degenerate masses, where the
+c     numerical cancellations are stronger and X = (T1-T2)*s2t/2/mt small
+      eps_st = 1d-7*T1/max(dabs(T1-T2),eps_t1*T1)
+      eps_st = max(1d-5,min(1d-1,eps_st))
+      eps_sb = 1d-7*B1/max(dabs(B1-B2),eps_b1*B1)
+      eps_sb = max(1d-8,min(1d-1,eps_sb))
       
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
-- 
2.43.0


From b5e639d98a522209ba1f747783e78e5e96b97e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 36/46] fix: avoid loss of all digits in the two-loop O(atau^2)
 and O(ab*atau) corrections for nearly degenerate sfermions

---
 source/himalaya/mh2l/DSZHiggs.f | 46 +++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 21867a9..a35dd28 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5329,6 +5329,38 @@ c     just call the cdli2 routine
 ***********************************************************************
 *     
       
+c     moves nearly degenerate masses apart, keeping (m1-m2)*sin(2 theta)
+
+      subroutine guarddeg(m1,m2,s,c)
+
+      implicit none
+
+      double precision m1,m2,s,c
+      double precision m,d,x,theta
+      double precision, parameter :: eps = 1d-5
+      double precision, parameter :: eps_mix = 1d-2
+
+      d = m1 - m2
+      m = (m1 + m2)/2d0
+
+      if (dabs(d).lt.eps*m) then
+         x = 2d0*s*c*d/(eps*m)
+         if (d.lt.0d0) x = -x
+         if (dabs(x).lt.eps_mix) x = sign(eps_mix,x)
+         theta = dasin(x)/2d0
+         s = dsin(theta)
+         c = dcos(theta)
+         m1 = m + sign(eps*m/2d0,d)
+         m2 = m - sign(eps*m/2d0,d)
+      endif
+
+      return
+      end
+
+*
+***********************************************************************
+*
+
 c     moves a vanishing sine or cosine of a mixing angle away from zero
 
       subroutine guardmix(s,c)
@@ -5370,6 +5402,10 @@ c
      $     ,FAp
       double precision, parameter :: pi = 3.1415926535897932d0
       
+c     guards against NANs for degenerate masses
+      call guarddeg(T1,T2,st,ct)
+      call guarddeg(B1,B2,sb,cb)
+
 c     guards against NANs when sin theta or cos theta is zero
       call guardmix(st,ct)
       call guardmix(sb,cb)
@@ -5439,6 +5475,10 @@ c     guards against NANs when sin theta or cos theta is zero
      $     ,FAp
       double precision, parameter :: pi = 3.1415926535897932d0
       
+c     guards against NANs for degenerate masses
+      call guarddeg(T1,T2,st,ct)
+      call guarddeg(B1,B2,sb,cb)
+
 c     guards against NANs when sin theta or cos theta is zero
       call guardmix(st,ct)
       call guardmix(sb,cb)
@@ -5831,6 +5871,9 @@ C     .
       
       mt = dsqrt(t)
       
+c     guards against NANs for degenerate masses
+      call guarddeg(T1,T2,st,ct)
+
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
       
@@ -6596,6 +6639,9 @@ c     DMA = 2-loop corrections to the CP-odd Higgs mass.
       
       mt = dsqrt(t)
       
+c     guards against NANs for degenerate masses
+      call guarddeg(T1,T2,st,ct)
+
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
       
-- 
2.43.0


From 9efebce3fa416018ee623c5491f99f026c039b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 37/46] fix: honour loopOrder 0 and 1 and the bottom setting in
 the LibraryLink

---
 .../LibraryLink/Himalaya_LibraryLink.cpp      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 178bb44..4dd4ced 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -399,14 +399,23 @@ Results calculate_results(const Data& data)
       res.fo_dom =
          std::make_tuple(dmh2_fo_0l_at, dmh2_fo_1l_at, dmh2_fo_2l_at, dmh2_fo_3l_at);
    } else {
+      res.ho = himalaya::HierarchyObject(data.bottom);
+
       // calculate fixed-order corrections for v^2 << MS^2
       himalaya::mh2_eft::Mh2EFTCalculator meft(data.pars);
       const auto dmh2_eft_0l = meft.getDeltaMh2EFT0Loop();
       const auto dmh2_eft_1l = meft.getDeltaMh2EFT1Loop(1,1);
       const auto dmh2_eft_2l = meft.getDeltaMh2EFT2Loop(1,1);
-      const auto zero = 0.;
 
-      res.eft = std::make_tuple(dmh2_eft_0l, dmh2_eft_1l, dmh2_eft_2l, 0.);
+      // skips corrections of a loop order higher than data.loopOrder
+      const auto truncate = [&data] (double dmh2_0l, double dmh2_1l, double dmh2_2l) {
+         return std::make_tuple(dmh2_0l,
+                                data.loopOrder > 0 ? dmh2_1l : 0.,
+                                data.loopOrder > 1 ? dmh2_2l : 0.,
+                                0.);
+      };
+
+      res.eft = truncate(dmh2_eft_0l, dmh2_eft_1l, dmh2_eft_2l);
 
       // calculate fixed-order corrections
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo(data.pars);
@@ -416,8 +425,10 @@ Results calculate_results(const Data& data)
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo_dom(data.pars, true);
       const auto dmh2_fo_dom = mfo_dom.calculate_Mh2(); // 0L, 1L, 2L
 
-      res.fo = std::tuple_cat(dmh2_fo, std::tie(zero));
-      res.fo_dom = std::tuple_cat(dmh2_fo_dom, std::tie(zero));
+      res.fo = truncate(std::get<0>(dmh2_fo), std::get<1>(dmh2_fo),
+                        std::get<2>(dmh2_fo));
+      res.fo_dom = truncate(std::get<0>(dmh2_fo_dom), std::get<1>(dmh2_fo_dom),
+                            std::get<2>(dmh2_fo_dom));
    }
 
    return res;
-- 
2.43.0


From 22d5c31e7346121b5a2b06e74438961dea0929ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 38/46] fix: O(at*as) shift of the quartic coupling from DR' to
 MSbar: the prefactor of the one-loop correction was applied twice

---
 source/himalaya/HierarchyCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 6bc26a6..0f7ee7c 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -253,7 +253,9 @@ himalaya::HierarchyObject HierarchyCalculator::calculateDMh3L(bool isAlphab)
    ho.setDLambdaDRbarPrimeToMSbarShift(1, 0.);
    if (!isAlphab) {
       ho.setDLambda(3, ho.getDLambdaEFT());
-      ho.setDLambdaDRbarPrimeToMSbarShift(2, pref_2L*(-4*ho.getDLambda(1)
+      ho.setDLambdaDRbarPrimeToMSbarShift(2, pref_2L*(-4
+         *tc.getThresholdCorrection(mh2_eft::ThresholdCouplingOrders::LAMBDA_AT,
+                                 mh2_eft::RenSchemes::DRBARPRIME, 1)
          *tc.getThresholdCorrection(mh2_eft::ThresholdCouplingOrders::YT_AS,
                                  mh2_eft::RenSchemes::DRBARPRIME, 1))/v2);
    } else {
-- 
2.43.0


From a7e9fe7cb29345bd76cd1cd27d7e2ff5b2941268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 39/46] fix: calculate the average squark mass of the threshold
 corrections after the missing input parameters have been completed (was NaN)

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 087175f..149e9f4 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -139,10 +139,13 @@ using namespace threshold_loop_functions;
  */
 ThresholdCalculator::ThresholdCalculator(
    const Parameters& p_, bool verbose, bool check)
-   : p(p_), msq2(p.calculateMsq2())
+   : p(p_)
 {
    p.validate(verbose);
 
+   // must not be calculated before the missing input has been completed
+   msq2 = p.calculateMsq2();
+
    if (!check) {
       // Set mass limit for threshold corrections
       const double mQ3 = std::sqrt(p.mq2(2,2));
-- 
2.43.0


From b97eb2707dcde5908ca7984849a1cf0d35a54241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:33 +0000
Subject: [PATCH 40/46] fix: reject the general mass case of the threshold
 corrections where it is dominated by numerical cancellations close to a mass
 limit

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 149e9f4..7be11f0 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -97,6 +97,11 @@ bool isGeneralStable(double exact, double shifted, double limit) noexcept
        || (std::abs(exact) > 1. && std::abs(shifted) > 1.))
       return false;
 
+   // a smooth function changes only little close to the limit, a larger
+   // difference is due to the cancellations in the general mass case
+   if (std::abs(exact - limit) > 0.01*std::abs(limit))
+      return false;
+
    return std::abs(shifted - limit) < std::abs(exact - limit);
 }
 
-- 
2.43.0


From 407580eca6caae0bab4e7d7c6fbd12150e13a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:01 +0000
Subject: [PATCH 41/46] fix: the O(ab^2), O(at*ab) and O(atau^2) threshold
 corrections to lambda were singular (NaN, or no correct digit) for coinciding
 masses: shift the masses apart; replaces the degenerate-mass expressions,
 which lacked 1/cos(beta)^6 (O(ab^2)), the logarithms and the dependence on MA

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 141 +++++++-----------
 1 file changed, 57 insertions(+), 84 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 7be11f0..79a49f7 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -14,6 +14,7 @@
 #include "himalaya/misc/Numerics.hpp"
 #include "himalaya/misc/Powers.hpp"
 #include "himalaya/misc/RAII.hpp"
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <limits>
@@ -105,6 +106,38 @@ bool isGeneralStable(double exact, double shifted, double limit) noexcept
    return std::abs(shifted - limit) < std::abs(exact - limit);
 }
 
+/**
+ * Shifts a squared mass away from two other (different) squared
+ * masses, because the expressions for non-degenerate masses have
+ * removable singularities where the masses are equal.
+ *
+ * @param m2 squared mass to be shifted
+ * @param a2 squared mass
+ * @param b2 squared mass
+ */
+void shiftAway(double& m2, double a2, double b2) noexcept
+{
+   const double min = std::min(a2, b2);
+   const double max = std::max(a2, b2);
+   const double f = 1.02;
+
+   if (min < f*m2 && m2 < f*min)
+      m2 = m2 < min ? min/f : min*f;
+   if (min < max && max < f*m2 && m2 < f*max)
+      m2 = max*f;
+}
+
+/**
+ * Shifts a squared mass away from another squared mass
+ *
+ * @param m2 squared mass to be shifted
+ * @param a2 squared mass
+ */
+void shiftAway(double& m2, double a2) noexcept
+{
+   shiftAway(m2, a2, a2);
+}
+
 double deltaxyz(double x, double y, double z) noexcept
 {
    return threshold_loop_functions::delta_xyz(x, y, z);
@@ -1086,7 +1119,10 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
 
    const double MR2 = pow2(p.scale);
    const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
+   double mD32 = p.md2(2,2);
+   double Mu2 = pow2(p.mu);
+   shiftAway(Mu2, mQ32);
+   shiftAway(mD32, mQ32, Mu2);
    const double mQ3 = std::sqrt(mQ32);
    const double mD3 = std::sqrt(mD32);
    const double mA = p.MA;
@@ -1094,25 +1130,11 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    const double cbeta = calcCosBeta();
    const double Xb = calcXb();
    const double Yb = calcYb();
-   const double Mu = p.mu;
+   const double Mu = std::copysign(std::sqrt(Mu2), p.mu);
    const double Xb2 = pow2(Xb);
    const double mA2 = pow2(mA);
-   const double Mu2 = pow2(Mu);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mD3 - mQ3) < eps && std::abs(mA - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (30.*pow4(cbeta)*(Xb2*pow2(M)*(Xb2*(0.2 + 0.7*pow2(cbeta) - 0.1*pow2(
-        sbeta)) + 0.17495808000000004*Xb*Yb*pow2(sbeta) - 0.004229546666666551*
-        pow2(sbeta)*pow2(Yb)) + (Xb2*(-0.4 - 2.8*pow2(cbeta) + 
-        0.5375628799999999*pow2(sbeta)) + 0.10016767999999983*Xb*Yb*pow2(sbeta)
-        + 0.025041919999999957*pow2(sbeta)*pow2(Yb))*pow4(M) - 
-        0.0041457066666666705*pow2(sbeta)*pow2(Yb)*pow4(Xb) + (0.8 + pow2(
-        cbeta) - 0.6699863197821283*pow2(sbeta))*pow6(M) - 0.06666666666666667*
-        pow2(cbeta)*pow6(Xb)))/pow6(M);
-   }
 
    return 3*(10 - 5/pow2(cbeta) - (2*mD32)/(mQ32*pow2(cbeta)) - (4*mQ32)/(mD32*
         pow2(cbeta)) + (2*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (8*Mu2)/(mD32*
@@ -1800,7 +1822,7 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    const double cbe = cbeta;
    const double Xtau = calcXtau();
    const double Ytau = calcYtau();
-   const double Mu = p.mu;
+   double Mu = p.mu;
 
    if (std::abs(mE3 - mL3) < 0.1*mE3) {
      const double lMS = log(mL32/MR2);
@@ -1820,6 +1842,10 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
      + (lMS*(1.5 - 1.5*pow2(sbe)) + pow2(cbe)*(1.5*lMS - 0.12437120000000013
      *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau))/(3*pow4(cbe)*pow6(M));
    }
+
+   double Mu2 = pow2(Mu);
+   shiftAway(Mu2, mL32, mE32);
+   Mu = std::copysign(std::sqrt(Mu2), Mu);
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
         pow2(mE3)*(pow2(mE3) - pow2(mL3))*pow2(mL3)*pow2(log(mE3)) - 4*pow2(
@@ -2205,8 +2231,12 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
 
    const double MR2 = pow2(p.scale);
    const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
-   const double mU32 = p.mu2(2,2);
+   double mD32 = p.md2(2,2);
+   double mU32 = p.mu2(2,2);
+   double Mu2 = pow2(p.mu);
+   shiftAway(Mu2, mQ32);
+   shiftAway(mU32, mQ32, Mu2);
+   shiftAway(mD32, mQ32, Mu2);
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
    const double mD3 = std::sqrt(mD32);
@@ -2220,43 +2250,12 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double Yt = sgn*calcYt();
    const double Xb = sgn*calcXb();
    const double Yb = sgn*calcYb();
-   const double Mu = std::abs(p.mu);
-   const double Mu2 = pow2(Mu);
+   const double Mu = std::sqrt(Mu2);
    const double Xt2 = pow2(Xt);
    const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (2.675765602178715*pow2(cbeta)*(cbeta*(1.4948992530373513*sbeta*pow3(M)*
-        pow3(Xb) - 8.96939551822411*sbeta*Xt*pow5(M)) + pow4(cbeta)*(Xb2*pow2(
-        M)*(-0.3737248132593378*Xb2 - 0.34273774426277803*Xb*Yt - 
-        0.514106616394167*pow2(Yt)) + (3.5039051224688698*Xb2 + 
-        5.046224971651371*Xb*Yt + 1.2615562429128429*pow2(Yt))*pow4(M) + 
-        0.05195844587770295*pow2(Yt)*pow4(Xb) + 1.*pow6(M)) + pow2(sbeta)*(-
-        0.20235594112794902*Xb2*Xt2*pow2(sbeta)*pow2(Yb) + pow2(M)*(
-        1.4948992530373513*Xb*Xt2*Yb*pow2(sbeta) + 0.7474496265186756*Xt2*pow2(
-        sbeta)*pow2(Yb) + Xb2*(1.1211744397780137*Xt2 + 1.4948992530373513*Xt*
-        Yb*pow2(sbeta) + 0.7474496265186756*pow2(sbeta)*pow2(Yb))) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb)*pow2(sbeta) - 
-        7.0078102449377395*Xt*Yb*pow2(sbeta) + Xb2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) + Xt2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) - 3.5039051224688698*pow2(sbeta)*pow2(
-        Yb))*pow4(M) + (-17.93879103644822 - 10.511715367406609*pow2(sbeta))*
-        pow6(M)) + pow2(cbeta)*(Xt*(0.7474496265186756*Xb*Xt - 
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xb) + Xb*pow2(M)*(Xb2*(-
-        0.342737744262778*Yb - 0.34273774426277803*Yt)*pow2(sbeta) + 
-        2.9897985060747025*Xt*Yb*Yt*pow2(sbeta) + Xb*Xt*(-6.727046638668082*Xt
-        + 1.4948992530373513*Yb + 1.4948992530373513*Yt)*pow2(sbeta) + (
-        0.3737248132593378 + 0.3737248132593378*pow2(sbeta))*pow3(Xb)) + (-
-        8.407868305684794*Xb2 + Xt*(8.96939551822411*Xt - 7.0078102449377395*Yb
-        - 7.0078102449377395*Yt) + Xb*(-7.0078102449377395*Xt + 
-        5.0462249716513705*Yb + 5.0462249716513705*Yt))*pow2(sbeta)*pow4(M) + (
-        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow4(cbeta)*pow2(sbeta));
-   }
 
    return -6 + (48*Xb*Mu*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
         mD32 - mQ32)*sbeta) + (48*Xt*Mu*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
@@ -2608,8 +2607,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
 
    const double MR2 = pow2(p.scale);
    const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
-   const double mU32 = p.mu2(2,2);
+   double mD32 = p.md2(2,2);
+   double mU32 = p.mu2(2,2);
+   double Mu2 = pow2(p.mu);
+   shiftAway(Mu2, mQ32);
+   shiftAway(mU32, mQ32, Mu2);
+   shiftAway(mD32, mQ32, Mu2);
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
    const double mD3 = std::sqrt(mD32);
@@ -2623,43 +2626,13 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double Yt = sgn*calcYt();
    const double Xb = sgn*calcXb();
    const double Yb = sgn*calcYb();
-   const double Mu = std::abs(p.mu);
-   const double Mu2 = pow2(Mu);
+   const double Mu = std::sqrt(Mu2);
    const double Xt2 = pow2(Xt);
    const double Xt4 = pow2(Xt2);
    const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR  = omitLogs*std::log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mU3);
-     return (2.675765602178715*pow2(sbeta)*(cbeta*M*sbeta*(-0.7474496265186756*Xb*Xt4
-        + (8.96939551822411*Xb + 1.4948992530373513*Xt)*Xt2*pow2(M) - 
-        8.96939551822411*Xb*pow4(M)) + pow4(cbeta)*(Yt*(1.4948992530373513*Xb*
-        Xt2 + Xb2*(1.4948992530373513*Xt + 0.7474496265186756*Yt) + 
-        0.7474496265186756*Xt2*Yt)*pow2(M) - 0.20235594112794902*Xb2*Xt2*pow2(
-        Yt) + (1.2615562429128426*Xb2 - 7.0078102449377395*Xb*Xt + 
-        1.2615562429128426*Xt2 - 7.0078102449377395*Xb*Yt - 7.0078102449377395*
-        Xt*Yt - 3.5039051224688698*pow2(Yt))*pow4(M) - 10.511715367406609*pow6(
-        M)) + pow2(sbeta)*(0.05195844587770295*Xt4*pow2(sbeta)*pow2(Yb) + Xt2*
-        pow2(M)*(Xt2*(0.3737248132593378 - 0.560587219889007*pow2(sbeta)) - 
-        0.342737744262778*Xt*Yb*pow2(sbeta) - 0.514106616394167*pow2(sbeta)*
-        pow2(Yb)) + pow2(sbeta)*(5.746254002024897*Xt2 + 5.046224971651371*Xt*
-        Yb + 1.2615562429128429*pow2(Yb))*pow4(M) + (8.969395518224111 + 1.*
-        pow2(sbeta))*pow6(M)) + pow2(cbeta)*(Xt*pow2(M)*(Xb2*Xt*(
-        1.1211744397780137 - 2.2423488795560274*pow2(sbeta)) + Xt2*(-
-        1.1211744397780137*Xt - 0.342737744262778*Yb - 0.342737744262778*Yt)*
-        pow2(sbeta) + Xb*(1.4948992530373513*Xt*Yb + 1.4948992530373513*Xt*Yt +
-        2.9897985060747025*Yb*Yt)*pow2(sbeta)) + Xb*(0.3737248132593378*Xb*Xt -
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xt) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb - 7.0078102449377395*Yt)*
-        pow2(sbeta) + Xb2*(-2.2423488795560274 + 8.96939551822411*pow2(sbeta))
-        + Xt*((5.0462249716513705*Yb + 5.0462249716513705*Yt)*pow2(sbeta) + Xt*
-        (-2.2423488795560274 + 9.530922730763425*pow2(sbeta))))*pow4(M) + (-
-        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/(pow6(M)*pow2(cbeta)*pow4(sbeta));
-   }
 
    return -4 + (48*Xb*Mu*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
-- 
2.43.0


From 307a0aca605d938aae5a945a159ca06b087de28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:47 +0000
Subject: [PATCH 42/46] fix: the O(at^2) threshold correction to lambda lost
 all digits where mu^2*1.03 coincides with a (shifted) squark mass: shift it
 apart

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 79a49f7..e4a64ed 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -114,12 +114,12 @@ bool isGeneralStable(double exact, double shifted, double limit) noexcept
  * @param m2 squared mass to be shifted
  * @param a2 squared mass
  * @param b2 squared mass
+ * @param f minimal ratio of the squared masses
  */
-void shiftAway(double& m2, double a2, double b2) noexcept
+void shiftAway(double& m2, double a2, double b2, double f = 1.02) noexcept
 {
    const double min = std::min(a2, b2);
    const double max = std::max(a2, b2);
-   const double f = 1.02;
 
    if (min < f*m2 && m2 < f*min)
       m2 = m2 < min ? min/f : min*f;
@@ -1434,8 +1434,9 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    mU32 *= 1 - shift;
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
-   const double Mu = p.mu * std::sqrt(1.03);
-   const double Mu2 = pow2(Mu);
+   double Mu2 = 1.03*pow2(p.mu);
+   shiftAway(Mu2, mQ32, mU32, 1.005);
+   const double Mu = std::copysign(std::sqrt(Mu2), p.mu);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR = omitLogs*std::log(Mu2 / MR2);
 
-- 
2.43.0


From d1e72cf81aecf828db463c520586f0af0e8da37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:37 +0000
Subject: [PATCH 43/46] fix: O(at^2) fixed-order corrections lost up to all
 digits for nearly degenerate stops, if heavy or if |mu| is large: move them
 apart by a relative distance of 1e-3, keeping (m1-m2)*sin(2 theta)

---
 source/himalaya/mh2l/DSZHiggs.f | 53 +++++++++++++--------------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index a35dd28..3d0c4b6 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -42,7 +42,7 @@ c
      $     ,FAp
       integer atat
       double precision eps_st,eps_sb
-      double precision, parameter :: eps_t1 = 1d-5
+      double precision, parameter :: eps_t1 = 1d-3
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
@@ -53,6 +53,9 @@ c
       mt = dsqrt(t)
       mb = dsqrt(b)
 
+c     guards against NANs when T1 == T2
+      call guarddeg(T1,T2,st,ct,eps_t1)
+
 c     minimum sin theta; larger for nearly degenerate masses, where the
 c     numerical cancellations are stronger and X = (T1-T2)*s2t/2/mt small
       eps_st = 1d-7*T1/max(dabs(T1-T2),eps_t1*T1)
@@ -77,16 +80,6 @@ c     the same for vanishing cos theta
          st = sign(sqrt(1.d0-ct*ct),st)
       endif
 
-c     ADDED by ALEX: guards against NANs when T1 == T2
-      if (dabs((T1-T2)/T1).lt.eps_t1) then
-         if (T1.gt.T2) then
-            T1 = T2 / (1d0 - eps_t1)
-         else
-            T1 = T2 / (1d0 + eps_t1)
-         endif
-      endif
-c     end of addition by ALEX
-
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(sb).lt.eps_sb) then
          if (sb.ge.0.0d0) then
@@ -219,7 +212,7 @@ c     end of addition by ALEX
      $     ,FAp
       integer atat
       double precision eps_st,eps_sb
-      double precision, parameter :: eps_t1 = 1d-5
+      double precision, parameter :: eps_t1 = 1d-3
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
@@ -230,6 +223,9 @@ c     end of addition by ALEX
       mt = dsqrt(t)
       mb = dsqrt(b)
 
+c     guards against NANs when T1 == T2
+      call guarddeg(T1,T2,st,ct,eps_t1)
+
 c     minimum sin theta; larger for nearly degenerate masses, where the
 c     numerical cancellations are stronger and X = (T1-T2)*s2t/2/mt small
       eps_st = 1d-7*T1/max(dabs(T1-T2),eps_t1*T1)
@@ -254,16 +250,6 @@ c     the same for vanishing cos theta
          st = sign(sqrt(1.d0-ct*ct),st)
       endif
 
-c     ADDED by ALEX: guards against NANs when T1 == T2
-      if (dabs((T1-T2)/T1).lt.eps_t1) then
-         if (T1.gt.T2) then
-            T1 = T2 / (1d0 - eps_t1)
-         else
-            T1 = T2 / (1d0 + eps_t1)
-         endif
-      endif
-c     end of addition by ALEX
-
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(sb).lt.eps_sb) then
          if (sb.ge.0.0d0) then
@@ -5331,14 +5317,14 @@ c     just call the cdli2 routine
       
 c     moves nearly degenerate masses apart, keeping (m1-m2)*sin(2 theta)
 
-      subroutine guarddeg(m1,m2,s,c)
+      subroutine guarddeg(m1,m2,s,c,eps)
 
       implicit none
 
-      double precision m1,m2,s,c
-      double precision m,d,x,theta
-      double precision, parameter :: eps = 1d-5
-      double precision, parameter :: eps_mix = 1d-2
+      double precision m1,m2,s,c,eps
+      double precision m,d,x,theta,eps_mix
+
+      eps_mix = 1d-7/eps
 
       d = m1 - m2
       m = (m1 + m2)/2d0
@@ -5348,6 +5334,7 @@ c     moves nearly degenerate masses apart, keeping (m1-m2)*sin(2 theta)
          if (d.lt.0d0) x = -x
          if (dabs(x).lt.eps_mix) x = sign(eps_mix,x)
          theta = dasin(x)/2d0
+         if (dabs(s).gt.dabs(c)) theta = dacos(0d0) - theta
          s = dsin(theta)
          c = dcos(theta)
          m1 = m + sign(eps*m/2d0,d)
@@ -5403,8 +5390,8 @@ c
       double precision, parameter :: pi = 3.1415926535897932d0
       
 c     guards against NANs for degenerate masses
-      call guarddeg(T1,T2,st,ct)
-      call guarddeg(B1,B2,sb,cb)
+      call guarddeg(T1,T2,st,ct,1d-5)
+      call guarddeg(B1,B2,sb,cb,1d-5)
 
 c     guards against NANs when sin theta or cos theta is zero
       call guardmix(st,ct)
@@ -5476,8 +5463,8 @@ c     guards against NANs when sin theta or cos theta is zero
       double precision, parameter :: pi = 3.1415926535897932d0
       
 c     guards against NANs for degenerate masses
-      call guarddeg(T1,T2,st,ct)
-      call guarddeg(B1,B2,sb,cb)
+      call guarddeg(T1,T2,st,ct,1d-5)
+      call guarddeg(B1,B2,sb,cb,1d-5)
 
 c     guards against NANs when sin theta or cos theta is zero
       call guardmix(st,ct)
@@ -5872,7 +5859,7 @@ C     .
       mt = dsqrt(t)
       
 c     guards against NANs for degenerate masses
-      call guarddeg(T1,T2,st,ct)
+      call guarddeg(T1,T2,st,ct,1d-5)
 
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
@@ -6640,7 +6627,7 @@ c     DMA = 2-loop corrections to the CP-odd Higgs mass.
       mt = dsqrt(t)
       
 c     guards against NANs for degenerate masses
-      call guarddeg(T1,T2,st,ct)
+      call guarddeg(T1,T2,st,ct,1d-5)
 
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
-- 
2.43.0


From 748011ecbc5ec661723f1f9c12186aeb61ec5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:48 +0000
Subject: [PATCH 44/46] fix: the complex dilogarithm of the Fortran routines
 returned uninitialised memory for NaN

---
 source/himalaya/mh2l/Li2.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/Li2.f90 b/source/himalaya/mh2l/Li2.f90
index 4365457..240827d 100644
--- a/source/himalaya/mh2l/Li2.f90
+++ b/source/himalaya/mh2l/Li2.f90
@@ -115,8 +115,11 @@ double complex function cdli2(z)
 
   ! special cases
   if (iz .eq. 0) then
-     if (rz .le. 1) cdli2 = dcmplx(dli2(rz), 0)
-     if (rz .gt. 1) cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     if (rz .gt. 1) then
+        cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     else
+        cdli2 = dcmplx(dli2(rz), 0)
+     endif
      return
   endif
 
-- 
2.43.0


From 25c9cff9d9e1b0b35a9c04add1e00b78a3002b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:18 +0000
Subject: [PATCH 45/46] fix: the Davydychev-Tausk function of the Fortran
 routines returned uninitialised memory for NaN

---
 source/himalaya/mh2l/DSZHiggs.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 3d0c4b6..3911d9b 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5190,7 +5190,7 @@ c     from Davydychev and Tausk, Nucl. Phys. B397 (1993) 23
          pphi = myphi(x,y,z)
       elseif(z.le.x.and.y.le.x) then
          pphi = z/x*myphi(z,y,x)
-      elseif(z.le.y.and.x.le.y) then
+      else
          pphi = z/y*myphi(z,x,y)
       endif
       
-- 
2.43.0


From fb2ab850b1c469dc6fcfed8cdcaa05c545da0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:10 +0000
Subject: [PATCH 46/46] fix: getDeltaLambdaYtau6: drop the expression for
 degenerate masses

Within 10 % of mL3 = mE3 the O(atau^3) correction was replaced by an
expression for the case that all masses (mL3, mE3, mu, MA) are equal,
whatever mu and MA are.  The correction jumped by factors of 2 to 1000
at the border.  Use the general expression instead, with the masses
shifted away from its removable singularities, as in the other
threshold corrections.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 30 ++++---------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index e4a64ed..9fbd808 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1813,7 +1813,11 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    const double MR2 = pow2(p.scale);
    const double lMR = omitLogs*log(MR2);
    const double mL32 = p.ml2(2,2);
-   const double mE32 = p.me2(2,2);
+   double mE32 = p.me2(2,2);
+   double Mu2 = pow2(p.mu);
+   // removable singularities
+   shiftAway(Mu2, mL32, mL32, 1.05);
+   shiftAway(mE32, mL32, Mu2, 1.05);
    const double mL3 = std::sqrt(mL32);
    const double mE3 = std::sqrt(mE32);
    const double mA = p.MA;
@@ -1823,30 +1827,8 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    const double cbe = cbeta;
    const double Xtau = calcXtau();
    const double Ytau = calcYtau();
-   double Mu = p.mu;
-
-   if (std::abs(mE3 - mL3) < 0.1*mE3) {
-     const double lMS = log(mL32/MR2);
-     const double M = mL3;
-     const double Xtau2 = pow2(Xtau);
-     return (cbe*(4.994969600000008 - 48.*lMS)*sbe*pow3(M)*pow3(Xtau)
-     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(51. - 40.5*pow2(sbe))
-     + 25.88317440000001*pow2(sbe)) + (-96. + 6.75*lMS)*pow4(cbe) + lMS*(74.25
-     - 99.*pow2(sbe) + 6.75*pow4(sbe))) + pow2(M)*(-0.12437120000000013
-     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-14.5 + 4.5*pow2(sbe)))
-     + (39. - 0.75*lMS)*pow4(cbe) + lMS*(-18.75 + 22.5*pow2(sbe)
-     - 0.75*pow4(sbe)))*pow4(Xtau) + cbe*(4.507545599999993 + 108.*lMS)*sbe
-     *Xtau*pow5(M) + cbe*(-0.24874240000000025 + 6.*lMS)*M*sbe*pow5(Xtau)
-     + (0.7512575999999989 + pow2(cbe)*(3.9004104065361593*pow2(sbe)
-     + lMS*(-30. + 58.5*pow2(sbe))) + (54. - 9.75*lMS + 18.*pow2(lMS))
-     *pow4(cbe) + lMS*(-2.25 + 30.*pow2(sbe) - 9.75*pow4(sbe)))*pow6(M)
-     + (lMS*(1.5 - 1.5*pow2(sbe)) + pow2(cbe)*(1.5*lMS - 0.12437120000000013
-     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau))/(3*pow4(cbe)*pow6(M));
-   }
+   const double Mu = std::copysign(std::sqrt(Mu2), p.mu);
 
-   double Mu2 = pow2(Mu);
-   shiftAway(Mu2, mL32, mE32);
-   Mu = std::copysign(std::sqrt(Mu2), Mu);
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
         pow2(mE3)*(pow2(mE3) - pow2(mL3))*pow2(mL3)*pow2(log(mE3)) - 4*pow2(
-- 
2.43.0

