From 452e1a0c6ed95b415616bdbaa902879f53cd8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 01/44] fix: declare complex dilogarithm pure instead of const

The function takes its argument by reference and therefore reads memory
through a pointer, which an __attribute__((const)) function must not do.
With optimization GCC drops the store of a temporary argument, so that
e.g. dilog(std::conj(z)) returned garbage.
---
 source/himalaya/misc/Li2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/misc/Li2.hpp b/source/himalaya/misc/Li2.hpp
index 030a170..1246ea4 100644
--- a/source/himalaya/misc/Li2.hpp
+++ b/source/himalaya/misc/Li2.hpp
@@ -38,7 +38,7 @@ namespace himalaya {
 double dilog(double) noexcept ATTR(const);
 
 /// complex dilogarithm
-std::complex<double> dilog(const std::complex<double>&) noexcept ATTR(const);
+std::complex<double> dilog(const std::complex<double>&) noexcept ATTR(pure);
 
 /// Clausen function Cl_2(x)
 double clausen_2(double) noexcept ATTR(const);
-- 
2.43.0


From c1a4e9d1fce044c2b0070f93db4715b319be5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 02/44] fix: logarithm in B0 with one vanishing mass

B0(p2,0,m2) = 2 - log(m2/q2) + (m2-p2)/p2 log|(m2-p2)/m2|, i.e. the
argument of the second logarithm is normalized to m2, not to p2.
---
 source/himalaya/mh2_fo/PV.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 2174a38..7607ead 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -165,8 +165,10 @@ double b0(double p2, double m12, double m22, double q2) noexcept
    }
 
    if (m12 < EPSTOL * EPSTOL * m22) {
-      const double del = std::hypot(m22 - p2, EPSTOL * m22);
-      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / p2);
+      const double logd = p2 < 0.5 * m22
+         ? std::log1p(-p2 / m22)
+         : std::log(std::hypot(m22 - p2, EPSTOL * m22) / m22);
+      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * logd;
    }
 
    const double s = p2 - m22 + m12;
-- 
2.43.0


From cd76f1288a3be382683ed0746a9ae10392ae4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/44] fix: loss of accuracy in B0(0,m1,m2) for nearly equal
 masses

The numerator log(m2/m1) must be calculated from the mass difference in
order to not lose all digits in the ratio log(m2/m1)/(m1 - m2).
---
 source/himalaya/mh2_fo/PV.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 7607ead..35338f9 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -161,7 +161,8 @@ double b0(double p2, double m12, double m22, double q2) noexcept
          return 1 - std::log(m22 / q2);
       }
 
-      return 1 - std::log(m22 / q2) + m12 * std::log(m22 / m12) / (m12 - m22);
+      return 1 - std::log(m22 / q2) +
+             m12 * std::log1p((m22 - m12) / m12) / (m12 - m22);
    }
 
    if (m12 < EPSTOL * EPSTOL * m22) {
-- 
2.43.0


From 395f5de60ffe7f2c1c16c2c164f2a8a1c87b9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 04/44] fix: loop functions f5, f6, f7, f8 for arguments next
 to -1

The two-argument functions have removable singularities at r1 = -1 and
r2 = -1, too, where the general expressions return nan or lose all
digits.
---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 120 +++++++++++++++++-
 1 file changed, 119 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e53cc78..ce9558a 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -670,6 +670,19 @@ static double f5_r1_r2(double r1, double r2) noexcept
    );
 }
 
+/// f5(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f5_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+
+   return
+      0.75 + d2*(-1./8 + d2*(1./8 + d2/20))
+      + d1*(1./8 + d2*(1./8 - sqr(d2)/40)
+      + d1*(1./8
+      + d1*(-1./20 - d2/40)));
+}
+
 double f5(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -687,6 +700,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f5_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f5_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., eps_one)) {
       return f5_1_r2(r1, r2);
    }
@@ -695,6 +716,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f5_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f5_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f5_0_r2(r1, r2);
    }
@@ -837,6 +866,20 @@ static double f6_r1_r2(double r1, double r2) noexcept
       );
 }
 
+/// f6(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f6_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+
+   return
+      3./7 + d2*(-2./7 + d2*(1./7 + d2*(1./10 + 3*d2/70)))
+      + d1*(2./7 + d2*(2./7 + d2*(1./14 - d2/70))
+      + d1*(1./7 + d2*(-1./14 - d2/14)
+      + d1*(-1./10 - d2/70
+      + 3*d1/70)));
+}
+
 double f6(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -853,6 +896,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., 0.02) && is_equal(r2, -1., 0.02)) {
+      return f6_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., 0.02) && is_equal(r2, 1., 0.02)) {
+      return f6_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., 0.001)) {
       return f6_1_r2(r1, r2);
    }
@@ -861,6 +912,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., 0.001)) {
+      return f6_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., 0.001)) {
+      return f6_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f6_0_r2(r1, r2);
    }
@@ -1007,6 +1066,20 @@ static double f7_r1_r2(double r1, double r2) noexcept
    return 6*res;
 }
 
+/// f7(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f7_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+
+   return
+      3 + d2*(1 + sqr(d2)*(-3./10 - 3*d2/10))
+      + d1*(-1 + d2*(-1 + d2*(-1./2 - d2/10))
+      + d1*(d2*(1./2 + d2/2)
+      + d1*(3./10 - d2/10
+      - 3*d1/10)));
+}
+
 double f7(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -1024,6 +1097,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f7_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f7_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., eps_one)) {
       return f7_1_r2(r1, r2);
    }
@@ -1032,6 +1113,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f7_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f7_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f7_0_r2(r1, r2);
    }
@@ -1183,6 +1272,19 @@ static double f8_r1_r2(double r1, double r2) noexcept
       + d4*(-3 + r22*(-285 - 90*lr22 + r22*(-570 - 630*lr22 + r22*(570 - 630*lr22 + r22*(285 - 90*lr22 + 3*r22)))))/(5.*r2*y7);
 }
 
+/// f8(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f8_1_m1(double r1, double r2) noexcept
+{
+   const double d1 = r1 - 1;
+   const double d2 = r2 + 1;
+
+   return
+      d2*(1./2 + d2*(1./4 + 3*d2/40))
+      + d1*(1./2 + sqr(d2)*(-1./8 - d2/10)
+      + d1*(-1./4 - d2/8
+      + d1*(3./40 + d2/10)));
+}
+
 double f8(double r1, double r2) noexcept
 {
    const double eps_zero = 5e-5;
@@ -1197,7 +1299,15 @@ double f8(double r1, double r2) noexcept
    }
 
    if (is_equal(r1, -1., eps_one) && is_equal(r2, -1., eps_one)) {
-      return -1.;
+      return -f8_1_1(-r1, -r2);
+   }
+
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f8_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f8_1_m1(r2, r1);
    }
 
    if (is_equal(r1, 1., eps_one)) {
@@ -1208,6 +1318,14 @@ double f8(double r1, double r2) noexcept
       return f8_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return -f8_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return -f8_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f8_0_r2(r1, r2);
    }
-- 
2.43.0


From cc20172319a2589539551f397249cb304582f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 05/44] fix: sign in F9(x1,x2) for x1 -> 1 and small x2

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index ce9558a..792f607 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -368,8 +368,8 @@ static double F9_1_x2(double x1, double x2) noexcept
    const double y6 = sqr(y3);
    const double lx22 = std::log(x22);
 
-   if (is_zero(x2, 0.01)) {
-      return 2 + d;
+   if (is_zero(x2, 1e-10)) {
+      return 2 + d*(-1 + d*(2/3. + d*(-1/2. + 2/5.*d)));
    }
 
    return
-- 
2.43.0


From b60ee52748c35d4c1324c8edbc65ad2804d0c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 06/44] fix: F9(x1,x2) for two small arguments

The limits x1 -> 0 and x1 -> x2 hold only if x1 is small or close
relative to x2.
---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 792f607..f158d25 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -426,15 +426,15 @@ double F9(double x1, double x2) noexcept
       return F9_1_x2(x2, x1);
    }
 
-   if (is_zero(x1, 0.0001)) {
+   if (ax1 <= 1e-8*ax2) {
       return F9_0_x2(x1, x2);
    }
 
-   if (is_zero(x2, 0.0001)) {
+   if (ax2 <= 1e-8*ax1) {
       return F9_0_x2(x2, x1);
    }
 
-   if (is_equal(ax1, ax2, 0.00001)) {
+   if (is_equal(ax1, ax2, 0.00001*ax2)) {
       return F9_x1_x2(x1, x2);
    }
 
-- 
2.43.0


From 13382acb044eedb8d8ad57068940a3d0d110a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 07/44] fix: f5(r1,r2) for small negative arguments

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index f158d25..82c7efd 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -567,8 +567,8 @@ static double f5_0_0(double r1, double r2) noexcept
 
    const double r12 = sqr(r1);
    const double r22 = sqr(r2);
-   const double r2lr2 = xlogx(r2);
-   const double lr2 = logx(r2);
+   const double lr2 = logx(std::abs(r2));
+   const double r2lr2 = r2*lr2;
 
    // expansion of f5 in
    //   r1 up to (including) r1^2
-- 
2.43.0


From 0d512a43bb9c3e1fc572abb9041ab503b62c2a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 08/44] fix: accuracy of Phi(x,y,z) for one small mass and two
 similar ones

The expansions in u are expansions in u/(1-v)^2 and break down for v
close to one.  The expressions can be written without cancellations, so
no expansion is needed.
---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 34 ++-----------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 82c7efd..3b2c9e3 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1365,40 +1365,12 @@ namespace {
       return sqr(1 - u - v) - 4*u*v;
    }
 
-   /// expansion of (1 - lambda + u - v)/2 for u ~ v ~ 0 up to including O(u^3 v^3)
-   double l00(double u, double v) noexcept
-   {
-      return v*(1 + u*(1 + u*(1 + u)) + v*(u*(1 + u*(3 + 6*u)) + u*(1 + u*(6 + 20*u))*v));
-   }
-
-   /// expansion of (1 - lambda + u - v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double l0v(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return u*(0.5*(1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
-   /// expansion of (1 - lambda - u + v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double lv0(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return v + u*(0.5*(-1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
    /// returns tuple (0.5*(1 - lambda + u - v), 0.5*(1 - lambda - u + v))
    std::tuple<double,double> luv(double lambda, double u, double v) noexcept
    {
-      if (v < qdrt_eps) {
-         return std::make_tuple(l00(u, v), l00(v, u));
-      } else if (u < qdrt_eps) {
-         return std::make_tuple(l0v(u, v), lv0(u, v));
-      }
-      return std::make_tuple(0.5*(1 - lambda + u - v),
-                             0.5*(1 - lambda - u + v));
+      // written such that there are no cancellations
+      return std::make_tuple(2*u/(1 + lambda + u - v),
+                             2*v/(1 + lambda - u + v));
    }
 
    /// u < 1 && v < 1, lambda^2(u,v) > 0; note: phi_pos(u,v) = phi_pos(v,u)
-- 
2.43.0


From b51eac63c817620ff7cb8349e600378dc0adc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 09/44] fix: sign of the fourth order term of F6(x) around x =
 1

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 3b2c9e3..4c8f39f 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -184,7 +184,7 @@ double F6(double x) noexcept
 
    if (is_equal(x2, 1., 0.01)) {
       const double d = (x - 1)*(x + 1);
-      return d*(1/3. + d*(-1/8. + d*(1/15. + d/24.)));
+      return d*(1/3. + d*(-1/8. + d*(1/15. - d/24.)));
    }
 
    return (x2 - 3)/(4*(1 - x2)) + x2*(x2 - 2)/(2*sqr(1 - x2))*std::log(x2);
-- 
2.43.0


From 27975c0d68567835e3fd1a670220d7209a3521ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 10/44] fix: F8(x1,x2) for one vanishing and one small argument

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 4c8f39f..d030e98 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -311,7 +311,7 @@ double F8(double x1, double x2) noexcept
       return F8_1_x2(x2, x1);
    }
 
-   if (is_zero(x1, 0.00001)) {
+   if (is_zero(x1, 0.00001) && ax1 <= ax2) {
       return F8_0_x2(x1, x2);
    }
 
-- 
2.43.0


From db853d2506141b64ad2a8346ff6a90084f5c0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 11/44] fix: f6(r1,r2) for one vanishing and one small argument

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index d030e98..517958f 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -754,6 +754,10 @@ static double f6_0_0(double r1, double r2) noexcept
       return 0.;
    }
 
+   if (std::abs(r1) > std::abs(r2)) {
+      std::swap(r1, r2);
+   }
+
    const double r22 = sqr(r2);
    const double lr22 = std::log(r22);
 
-- 
2.43.0


From 4d9dffa61fb49f9a70bc254e49400e5136e5934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 12/44] fix: Phi(x,y,z) for two very small, similar masses

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 517958f..d1a94be 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1387,7 +1387,7 @@ namespace {
       const double pi23 = 3.2898681336964529; // Pi^2/3
       const auto lambda = std::sqrt(lambda_2(u,v));
 
-      if (is_equal(u, v, eps)) {
+      if (is_equal(u, v, eps*v)) {
          const double x = u < qdrt_eps ? u*(1 + u*(1 + u*(2 + 5*u))) : 0.5*(1 - lambda);
 
          return (- sqr(std::log(u)) + 2*sqr(std::log(x))
-- 
2.43.0


From d5daa19d7ff1e6413966af167cf8b62708e09c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 13/44] fix: calculate average squark mass after completing the
 parameters

The masses of the W, Z and bottom may be left open by the user, in
which case the average squark mass was nan.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f26414e..36d04f1 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -134,9 +134,10 @@ using namespace threshold_loop_functions;
  */
 ThresholdCalculator::ThresholdCalculator(
    const Parameters& p_, bool verbose, bool check)
-   : p(p_), msq2(p.calculateMsq2())
+   : p(p_)
 {
    p.validate(verbose);
+   msq2 = p.calculateMsq2();
 
    if (!check) {
       // Set mass limit for threshold corrections
-- 
2.43.0


From 97931707dc9d93e691865e81fc24252c3575c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 14/44] fix: O(at^2) corrections for cos(theta) <= 0

DDSHiggs and DDSodd replaced cos(theta) by +sqrt(1 - sin^2(theta)), which
flips the sign of the sfermion mixing if cos(theta) < 0. This is the case
for stop (sbottom) mixing angles larger than pi/2, which occur if the
heavier stop (sbottom) is left-handed. For cos(theta) = 0 the result was
not-a-number.
---
 source/himalaya/mh2l/DSZHiggs.f | 78 ++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 937522d..b77dc37 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -56,13 +56,14 @@ c
 
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
-         if (st.ge.0.0d0) then
-            st = eps_st
-         else
-            st = -eps_st
-         endif
+         st = sign(eps_st,st)
+         ct = sign(sqrt(1.d0-st*st),ct)
+      endif
+c     guards against NANs when cos theta is zero
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st,ct)
+         st = sign(sqrt(1.d0-ct*ct),st)
       endif
-      ct = sqrt(1.d0-st*st)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -77,13 +78,14 @@ c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(sb).lt.eps_sb) then
-         if (sb.ge.0.0d0) then
-            sb = eps_sb
-         else
-            sb = -eps_sb
-         endif
+         sb = sign(eps_sb,sb)
+         cb = sign(sqrt(1.d0-sb*sb),cb)
+      endif
+c     guards against NANs when cos theta is zero
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb,cb)
+         sb = sign(sqrt(1.d0-cb*cb),sb)
       endif
-      cb = sqrt(1.d0-sb*sb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
@@ -215,13 +217,14 @@ c     end of addition by ALEX
       
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
-         if (st.ge.0.0d0) then
-            st = eps_st
-         else
-            st = -eps_st
-         endif
+         st = sign(eps_st,st)
+         ct = sign(sqrt(1.d0-st*st),ct)
+      endif
+c     guards against NANs when cos theta is zero
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st,ct)
+         st = sign(sqrt(1.d0-ct*ct),st)
       endif
-      ct = sqrt(1.d0-st*st)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -236,13 +239,14 @@ c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(sb).lt.eps_sb) then
-         if (sb.ge.0.0d0) then
-            sb = eps_sb
-         else
-            sb = -eps_sb
-         endif
+         sb = sign(eps_sb,sb)
+         cb = sign(sqrt(1.d0-sb*sb),cb)
+      endif
+c     guards against NANs when cos theta is zero
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb,cb)
+         sb = sign(sqrt(1.d0-cb*cb),sb)
       endif
-      cb = sqrt(1.d0-sb*sb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
@@ -359,13 +363,14 @@ c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
-         if (st.ge.0.0d0) then
-            st = eps_st
-         else
-            st = -eps_st
-         endif
+         st = sign(eps_st,st)
+         ct = sign(sqrt(1.d0-st*st),ct)
+      endif
+c     guards against NANs when cos theta is zero
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st,ct)
+         st = sign(sqrt(1.d0-ct*ct),st)
       endif
-      ct = sqrt(1.d0-st*st)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -380,13 +385,14 @@ c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(sb).lt.eps_sb) then
-         if (sb.ge.0.0d0) then
-            sb = eps_sb
-         else
-            sb = -eps_sb
-         endif
+         sb = sign(eps_sb,sb)
+         cb = sign(sqrt(1.d0-sb*sb),cb)
+      endif
+c     guards against NANs when cos theta is zero
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb,cb)
+         sb = sign(sqrt(1.d0-cb*cb),sb)
       endif
-      cb = sqrt(1.d0-sb*sb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
-- 
2.43.0


From cc0dbfa33a3feb29b22b0a25c44768bf6f1d3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 15/44] fix: hierarchy selection when the first candidate has
 an undefined error

The comparison with a not-a-number is always false, so a suitable
hierarchy with tachyonic expanded two-loop Higgs mass could never be
replaced by a better one.
---
 source/himalaya/HierarchyCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..c592a33 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -369,8 +369,11 @@ int HierarchyCalculator::compareHierarchies(himalaya::HierarchyObject& ho)
          // If the error is negative, it is the first iteration and
          // there is no hierarchy which fits better.  Otherwise,
          // compare the current error with the last error and choose
-         // the hierarchy which fits best (lowest error).
-         if (error < 0 || currError < error) {
+         // the hierarchy which fits best (lowest error).  An undefined
+         // error (tachyonic expanded Higgs mass) is worse than any
+         // defined one.
+         if (error < 0 || currError < error
+             || (std::isnan(error) && !std::isnan(currError))) {
             error = currError;
             suitableHierarchy = hierarchy;
             ho.setAbsDiff2L(twoLoopError);
-- 
2.43.0


From f382c50791dd3ddcd1c0419dc6fb62ddbf39020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 16/44] fix: truncation flag of the stop mass difference
 expansion

The flag for Dmst12 was initialized with the one of Dmglst1 so that the
expansion uncertainty missed the truncation in Dmst12 (and truncated
both variables when only Dmglst1 was to be truncated).
---
 source/himalaya/hierarchies/H3.cpp     | 2 +-
 source/himalaya/hierarchies/H32q2g.cpp | 2 +-
 source/himalaya/hierarchies/H3q22g.cpp | 2 +-
 source/himalaya/hierarchies/H9.cpp     | 2 +-
 source/himalaya/hierarchies/H9q2.cpp   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/hierarchies/H3.cpp b/source/himalaya/hierarchies/H3.cpp
index 2c7bfec..602a23e 100644
--- a/source/himalaya/hierarchies/H3.cpp
+++ b/source/himalaya/hierarchies/H3.cpp
@@ -65,7 +65,7 @@ H3::H3 (const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H32q2g.cpp b/source/himalaya/hierarchies/H32q2g.cpp
index fc5bf95..2c32daf 100644
--- a/source/himalaya/hierarchies/H32q2g.cpp
+++ b/source/himalaya/hierarchies/H32q2g.cpp
@@ -62,7 +62,7 @@ H32q2g::H32q2g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H3q22g.cpp b/source/himalaya/hierarchies/H3q22g.cpp
index 66c8f1f..6e2ca59 100644
--- a/source/himalaya/hierarchies/H3q22g.cpp
+++ b/source/himalaya/hierarchies/H3q22g.cpp
@@ -64,7 +64,7 @@ H3q22g::H3q22g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H9.cpp b/source/himalaya/hierarchies/H9.cpp
index 0a6719f..524496f 100644
--- a/source/himalaya/hierarchies/H9.cpp
+++ b/source/himalaya/hierarchies/H9.cpp
@@ -64,7 +64,7 @@ H9::H9(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, double
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
diff --git a/source/himalaya/hierarchies/H9q2.cpp b/source/himalaya/hierarchies/H9q2.cpp
index 748610e..43e78f3 100644
--- a/source/himalaya/hierarchies/H9q2.cpp
+++ b/source/himalaya/hierarchies/H9q2.cpp
@@ -66,7 +66,7 @@ H9q2::H9q2(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, dou
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
-- 
2.43.0


From 96f16faaafab6c062ea17bc90569929bdade9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 17/44] fix: smallest Higgs mass in the presence of a negative
 eigenvalue

Comparing square roots, one of them not-a-number, returned the heavy or
the undefined mass depending on the order of the eigenvalues.
---
 source/himalaya/HierarchyCalculator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index c592a33..4481c3e 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -51,9 +51,8 @@ namespace {
 double calcSmallestEigenvalue(const Eigen::Matrix2d& matrix)
 {
    Eigen::EigenSolver<Eigen::Matrix2d> solver(matrix, false);
-   const auto eigenvalues = solver.eigenvalues().real().cwiseSqrt();
 
-   return eigenvalues(0) < eigenvalues(1) ? eigenvalues(0) : eigenvalues(1);
+   return std::sqrt(solver.eigenvalues().real().minCoeff());
 }
 
 /// set flags to omit all corrections, except O(at*as^n)
-- 
2.43.0


From 5fe5862545ae4756db5f052745bcb99057be66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 18/44] fix: O(at*as) corrections for equal stops and
 gluino-stop mass difference below mt
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The closed form of the limit was only valid for a positive Källen
function of the squared top, stop and gluino masses.
---
 source/himalaya/mh2l/DSZHiggs.cpp | 98 ++++++++-----------------------
 1 file changed, 24 insertions(+), 74 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index c36674d..162adeb 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -7,7 +7,7 @@
 
 #include "himalaya/mh2l/DSZHiggs.hpp"
 #include "himalaya/mh2l/DSZHiggs.h"
-#include "himalaya/mh2l/Li2f.hpp"
+#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
 #include "himalaya/misc/CouplingOrders.hpp"
 #include <cmath>
 #include <iostream>
@@ -32,13 +32,29 @@ template <typename T> T constexpr sqr(T a) { return a * a; }
 template <typename T> T sqrtabs(T a) { return std::sqrt(std::abs(a)); }
 template <typename T> T logabs(T x) { return std::log(std::abs(x)); }
 
+/// phi(x,y,z) function, valid for either sign of the Källén function
+double phi(double x, double y, double z)
+{
+   const double del = sqr(z - x - y) - 4*x*y;
+
+   return 2*z/del*mh2_eft::threshold_loop_functions::phi_xyz(x, y, z);
+}
+
+/// First derivative of phi[t,T,g] w.r.t. T
+double dphi_010(double t, double T, double g)
+{
+   const double del = sqr(g - t - T) - 4*t*T;
+
+   return ((g + t - T)*phi(t,T,g) + g*((g - t - T)/T*logabs(t/g) +
+      2*logabs(T/g)))/del;
+}
+
 /// limit st -> 0 and mst1 -> mst2
 Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    double mt2, double mg, double mst12, double /* mst22 */,
    double /* sxt */, double /* cxt */, double scale2, double mu,
    double tanb, double vev2, double g3, int /* scheme */)
 {
-   constexpr double Pi2 = M_PI * M_PI;
    constexpr double Pi4 = M_PI * M_PI * M_PI * M_PI;
    const double g = sqr(mg);
    const double g2 = sqr(g);
@@ -48,7 +64,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    const double T = mst12;
    const double Tsq = sqr(mst12);
    const double del = g2 + tsq + Tsq - 2*(g*t + g*T + t*T);
-   const double rdel = sqrtabs(del);
+   const double phi_tTg = phi(t,T,g);
+   const double dphi_tTg = dphi_010(t,T,g);
    const double sb = std::sin(std::atan(tanb));
    const double ht2 = 2./vev2*mt2/sqr(sb);
 
@@ -56,22 +73,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
 
    result(0,0) = 0.;
 
-   result(0,1) = (sqr(g3)*ht2*mg*mt2*mu* (-1 + logabs(t/q) -
-      (T*((2*del* (-(logabs(t/g)/T) - (2*(g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T - g*sqrtabs(del/g2))/
-      (2.*g)))/ (g*sqrtabs(del/g2)* (t - T + g*(-1 +
-      sqrtabs(del/g2)))) + (2*logabs((g - t + T - g*sqrtabs(del/g2))/
-      (2.*g)))/(g*sqrtabs(del/g2)) - (2*((g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T + g*sqrtabs(del/g2))/
-      (2.*g)) + (g - t + T - g*sqrtabs(del/g2))* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g))))/ (g*sqrtabs(del/g2)* (t - T +
-      g*(-1 + sqrtabs(del/g2))))))/ g2 + (2*(g + t - T)*(Pi2 -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g))*logabs((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g))))/ (3.*g2)))/(2.*std::pow(std::abs(del)/g2,1.5))))/
-      (8.*Pi4*T);
+   result(0,1) = (sqr(g3)*ht2*mg*mt2*mu*(-1 + logabs(t/q) -
+      T*dphi_tTg))/(8.*Pi4*T);
 
    result(1,0) = result(0,1);
 
@@ -81,27 +84,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
       + T) + 2*g*t*(t + 5*T))*logabs(t/g) +
       4*g2*T*logabs(T/g)))/(del*T) + 2*logabs(T/q) -
       8*sqr(logabs(T/q)) + 5*logabs(Tsq/tsq) + sqr(logabs(Tsq/tsq)) +
-      (4*g2*(g + t - T)*(Pi2 - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/ (2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))* logabs((-rdel + g - t +
-      T)/(2.*g))))/(3.*std::pow(std::abs(del),1.5)) + (4*g*(g + t - T)*(Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((g + t - T - g*sqrtabs(del/g2))/(2.*g))* logabs((g - t
-      + T - g*sqrtabs(del/g2))/(2.*g))))/ (3.*del*sqrtabs(del/g2)) +
-      (8*mg*mu*(1/T - logabs(t/q)/T + (g*(g + t - T)* (Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))*logabs((-rdel + g - t +
-      T)/(2.*g))))/ (3.*std::pow(std::abs(del),1.5)) + (g*(-(logabs(t/g)/T) -
-      (2*(-(g*logabs(4.)) + (rdel + g + t - T)*logabs((-rdel + g + t -
-      T)/g) + (-rdel + g - t + T)*logabs((-rdel + g - t + T)/g)))/
-      (rdel*(rdel - g + t - T)) - 2*(((rdel + g + t - T)* logabs((g +
-      t - T + g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(t - T + g*(-1 +
-      sqrtabs(del/g2)))) - ((rdel - g - t + T)* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(-t + T + g*(-1 +
-      sqrtabs(del/g2)))))))/ rdel))/tanb))/(32.*Pi4);
+      (8*g*(g + t - T)*phi_tTg)/del + (8*mg*mu*(1/T - logabs(t/q)/T +
+      dphi_tTg))/tanb))/(32.*Pi4);
 
    return result;
 }
@@ -149,40 +133,6 @@ double calc_At(double mt2, double mst12, double mst22,
    return At;
 }
 
-double phi(double x, double y, double z)
-{
-   const double u = x/z, v = y/z;
-   const double lambda = sqrtabs(sqr(1 - u - v) - 4*u*v);
-   const double xp = 0.5 * (1 + (u - v) - lambda);
-   const double xm = 0.5 * (1 - (u - v) - lambda);
-
-   return 1./lambda * (2*logabs(xp)*logabs(xm) - logabs(u)*logabs(v) -
-                       2*(li2(xp) + li2(xm)) + M_PI*M_PI/3.);
-}
-
-/// First derivative of phi[t,T,g] w.r.t. T
-double dphi_010(double t, double T, double g)
-{
-   constexpr double Pi2 = M_PI * M_PI;
-   const double g2 = sqr(g);
-   const double abbr = (-4*t*T)/g2 + sqr(1 - t/g - T/g);
-   const double rabbr = sqrtabs(abbr);
-
-   return ((g + t - T)*(Pi2 - 6*li2((g - rabbr*g + t - T)/(2.*g)) -
-      6*li2((g - rabbr*g - t + T)/(2.*g)) -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g - rabbr*g + t -
-      T)/(2.*g))*logabs((g - rabbr*g - t + T)/(2.*g))) + (3*rabbr*g* (
-      rabbr*g*((-1 + rabbr)*g + t - T)*logabs(t/g) +
-      2*T*(-2*g*logabs(4.) + (g + rabbr*g + t - T)*logabs((g - rabbr*g
-      + t - T)/g) + (g + rabbr*g + t - T)*logabs((g + rabbr*g + t -
-      T)/g) + g*logabs((g - rabbr*g - t + T)/g) - rabbr*g*logabs((g -
-      rabbr*g - t + T)/g) - t*logabs((g - rabbr*g - t + T)/g) +
-      T*logabs((g - rabbr*g - t + T)/g) + g*logabs((g + rabbr*g - t +
-      T)/g) - rabbr*g*logabs((g + rabbr*g - t + T)/g) - t*logabs((g +
-      rabbr*g - t + T)/g) + T*logabs((g + rabbr*g - t + T)/g)) ) ) /
-      (T*(g - rabbr*g - t + T)))/(3.*std::pow(std::abs(abbr),1.5)*g2);
-}
-
 } // anonymous namespace
 
 double delta_ma2_2loop_at_as_mst1_eq_mst2(
-- 
2.43.0


From 26d318091ba5060b6a8206870622bbaf069d7454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 19/44] fix: tau and tau-bottom two-loop corrections for equal
 sfermion masses and for vanishing mixing

The formulas divide by the mass splittings and by the sines of twice the
mixing angles, so they returned NaN or meaningless numbers in these cases.
Guard them like the top-bottom corrections are guarded.
---
 source/himalaya/mh2l/DSZHiggs.cpp | 37 +++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index 162adeb..419c3ea 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -49,6 +49,29 @@ double dphi_010(double t, double T, double g)
       2*logabs(T/g)))/del;
 }
 
+/// avoids divisions by zero for equal sfermion masses
+void avoid_equal_masses(double& m12, double m22)
+{
+   constexpr double eps = 1e-5;
+
+   if (std::abs(m12 - m22) < eps*std::abs(m12)) {
+      m12 = m22/(m12 > m22 ? 1 - eps : 1 + eps);
+   }
+}
+
+/// avoids divisions by zero for vanishing sfermion mixing
+void avoid_zero_mixing(double& sx, double& cx)
+{
+   constexpr double eps = 1e-8;
+
+   if (std::abs(sx) < eps) {
+      sx = std::copysign(eps, sx);
+   }
+   if (std::abs(cx) < eps) {
+      cx = std::copysign(eps, cx);
+   }
+}
+
 /// limit st -> 0 and mst1 -> mst2
 Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    double mt2, double mg, double mst12, double /* mst22 */,
@@ -290,6 +313,8 @@ double delta_ma2_2loop_atau_atau(
 {
    double result = 0.;
 
+   avoid_equal_masses(mstau12, mstau22);
+
    tausqodd_(&mtau2, &mA2, &msv2, &mstau12, &mstau22, &sintau,
              &costau, &scale2, &mu, &tanb, &vev2, &result);
 
@@ -305,6 +330,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_atau_atau(
    int scheme = 0;
    Eigen::Matrix<double, 2, 2> result;
 
+   avoid_equal_masses(mstau12, mstau22);
+
    tausqhiggs_(&mtau2, &mA2, &msv2, &mstau12, &mstau22, &sintau,
                &costau, &scale2, &mu, &tanb, &vev2, &scheme,
                &result(0,0), &result(1,1), &result(0,1));
@@ -328,6 +355,11 @@ double delta_ma2_2loop_ab_atau(
 {
    double result = 0.;
 
+   avoid_zero_mixing(sintau, costau);
+   avoid_zero_mixing(sxb, cxb);
+   avoid_equal_masses(mstau12, mstau22);
+   avoid_equal_masses(msb12, msb22);
+
    taubotodd_(&mtau2, &mb2,
               &mstau12, &mstau22, &msb12, &msb22,
               &sintau, &costau, &sxb, &cxb,
@@ -345,6 +377,11 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
 {
    Eigen::Matrix<double, 2, 2> result;
 
+   avoid_zero_mixing(sintau, costau);
+   avoid_zero_mixing(sxb, cxb);
+   avoid_equal_masses(mstau12, mstau22);
+   avoid_equal_masses(msb12, msb22);
+
    taubot_(&mtau2, &mb2,
            &mstau12, &mstau22, &msb12, &msb22,
            &sintau, &costau, &sxb, &cxb,
-- 
2.43.0


From 7b1052bf0c54e088b0464e7f551026818e913722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 20/44] fix: data race on the banner flag when calculators are
 constructed concurrently

---
 source/himalaya/HierarchyCalculator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 4481c3e..f3a008d 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cmath>
 #include <iostream>
 #include <numeric>
@@ -39,7 +40,7 @@
 
 namespace himalaya {
 
-static bool isInfoPrinted; ///< if true, no info will be printed
+static std::atomic<bool> isInfoPrinted{false}; ///< if true, no info will be printed
 
 namespace {
 
@@ -152,9 +153,9 @@ void printInfo()
 HierarchyCalculator::HierarchyCalculator(const Parameters& p_, bool verbose_)
    : p(p_), verbose(verbose_)
 {
-   if (!isInfoPrinted && verbose) {
+   // print the info only once, even if several threads construct calculators
+   if (verbose && !isInfoPrinted.exchange(true)) {
       printInfo();
-      isInfoPrinted = true;
    }
 
    p.validate(verbose);
-- 
2.43.0


From f2521c08d001313e382632ea06d76fdb78f31917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 21/44] fix: O(at)-only fixed-order 1-loop correction contained
 bottom and tau Yukawa terms

---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index 1846938..a0d46c4 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -201,8 +201,8 @@ RM22 MSSM_mass_eigenstates::delta_mh2_1loop(double p2) const
    const auto g1     = pars.g1;
    const auto g2     = pars.g2;
    const auto yt     = pars.Yu(2,2);
-   const auto yb     = pars.Yd(2,2);
-   const auto ytau   = pars.Ye(2,2);
+   const auto yb     = orders.at(CouplingOrders::ONLY_AT_AS) == 1 ? 0. : pars.Yd(2,2);
+   const auto ytau   = orders.at(CouplingOrders::ONLY_AT_AS) == 1 ? 0. : pars.Ye(2,2);
    const auto vu     = pars.vu;
    const auto vd     = pars.vd;
    const auto mu     = pars.mu;
-- 
2.43.0


From c4a0fc27415256e862b32487a5097de287e4552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 22/44] fix: numerical momentum iteration returned minus the
 mass matrix if no iteration is allowed

---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index a0d46c4..84e2185 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -617,7 +617,8 @@ RM22 MSSM_mass_eigenstates::delta_mh2_2loop_mom_it_num(
    auto p2 = mh2_0L;
    int n = 0;
    bool has_converged = false;
-   RM22 DMH(RM22::Zero());
+   const auto DMH_1L = delta_mh2_1loop(mh2_0L);
+   RM22 DMH = DMH_0L + DMH_1L;
 
    while (!has_converged && n < max_iterations) {
       DMH = DMH_0L + delta_mh2_1loop(p2);
@@ -636,7 +637,7 @@ RM22 MSSM_mass_eigenstates::delta_mh2_2loop_mom_it_num(
                   << n << " iterations.");
    }
 
-   return DMH - DMH_0L - delta_mh2_1loop(mh2_0L);
+   return DMH - DMH_0L - DMH_1L;
 }
 
 RM22 MSSM_mass_eigenstates::get_mass_matrix_hh() const
-- 
2.43.0


From 743b80d46f8835d5eb6268d95392241f61fb2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 23/44] fix: O(at)-only calculation threw for points with a
 light sbottom or stau

---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index 84e2185..e8e945f 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -52,15 +52,6 @@ Parameters make_3rd_gen(const Parameters& pars)
 
    auto gen3 = pars;
 
-   gen3.Mb = NaN;
-   gen3.Mtau = NaN;
-   gen3.MSb.setConstant(NaN);
-   gen3.MStau.setConstant(NaN);
-   gen3.s2b = NaN;
-   gen3.s2tau = NaN;
-   gen3.theta_b = NaN;
-   gen3.theta_tau = NaN;
-
    for (int i = 0; i < 3; i++) {
       for (int k = 0; k < 3; k++) {
          if (i == 2 && k == 2) {
@@ -74,8 +65,6 @@ Parameters make_3rd_gen(const Parameters& pars)
       }
    }
 
-   gen3.validate(false);
-
    return gen3;
 }
 
-- 
2.43.0


From e77de153b513ef0f2f5dd41e303a034738b87f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 24/44] fix: O(ab*atau) correction had the (1,2) and (2,2)
 elements interchanged

---
 source/himalaya/mh2l/DSZHiggs.cpp | 2 +-
 source/himalaya/mh2l/DSZHiggs.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index 419c3ea..64abd66 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -386,7 +386,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
            &mstau12, &mstau22, &msb12, &msb22,
            &sintau, &costau, &sxb, &cxb,
            &scale2, &mu, &tanb, &vev2,
-           &result(0,0), &result(1,1), &result(0,1));
+           &result(0,0), &result(0,1), &result(1,1));
 
    result(1,0) = result(0,1);
 
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index 6f4b677..cc62d7d 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -102,7 +102,7 @@ int taubot_(double * t, double * b,
             double * T1, double * T2, double * B1, double * B2,
             double * st, double * ct, double * sb, double * cb,
             double * q, double * mu, double * tanb, double * vv,
-            double * S11, double * S22, double * S12);
+            double * S11, double * S12, double * S22);
 
 /**
  * Two-loop O(a_t a_s) corrections to the CP-odd Higgs mass in the
-- 
2.43.0


From 5be6f344396996878ef31908f1482656c9742ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 25/44] fix: O(at^2)-only correction to the CP-odd Higgs mass
 missed a term for vanishing bottom Yukawa coupling

---
 source/himalaya/mh2l/DSZHiggs.f | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index b77dc37..d104bb9 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -201,6 +201,12 @@ c     end of addition by ALEX
      $     ,k
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
+      double precision hbFAp
+      double precision D1t,DT1,DT2,Dc2t,DT1T1,DT2T2,Dtt,Dc2tc2t,DT1t
+     $     ,DT2t,DT1T2,Dtc2t,DT1c2t,DT2c2t,Dtb,DT1b,DT2b,DB1t,DB2t,DT1B1
+     $     ,DT2B1,DT1B2,DT2B2,Dbc2t,DB1c2t,DB2c2t,DT1c2b,DT2c2b,Dc2tc2b
+     $     ,Dcptpb,Dcpttptb,Dcpbptt,Dcptptb,Dcptmptt,Dcpbmptb
+     $     ,Dspbmptbspbptt,Dsptmpttsptptb,Dsptmpttspbmptb
       integer atat
       double precision, parameter :: eps_st = 1d-5
       double precision, parameter :: eps_t1 = 1d-5
@@ -211,6 +217,13 @@ c     end of addition by ALEX
       double precision, parameter :: eps_b2t1 = 1d-8
       double precision, parameter :: eps_b2t2 = 1d-9
       double precision, parameter :: pi = 3.1415926535897932d0
+
+      common/listderiv/D1t,DT1,DT2,Dc2t,DT1T1,DT2T2,
+     $     Dtt,Dc2tc2t,DT1t,DT2t,DT1T2,
+     $     Dtc2t,DT1c2t,DT2c2t,Dtb,DT1b,DT2b,DB1t,DB2t,DT1B1,DT2B1,
+     $     DT1B2,DT2B2,Dbc2t,DB1c2t,DB2c2t,DT1c2b,DT2c2b,Dc2tc2b,
+     $     Dcptpb,Dcpttptb,Dcpbptt,Dcptptb,Dcptmptt,Dcpbmptb,
+     $     Dspbmptbspbptt,Dsptmpttsptptb,Dsptmpttspbmptb
       
       mt = dsqrt(t)
       mb = dsqrt(b)
@@ -324,8 +337,17 @@ c     end of addition by ALEX
       call makefuncs(t,b,A0,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb,
      $     F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb,FAp,atat)
       
+c     the product hb*FAp contains a term proportional to hb/mb, which
+c     does not depend on the bottom mass
+      if (atat.eq.1) then
+        hbFAp = dsqrt(2d0/vv)/cbe*mt/s2t**2/(T1-T2)**2
+     $       *mu**2/tanb**2*Dcptmptt
+      else
+        hbFAp = hb*FAp
+      endif
+
       DMA = -(ht**2*mu*At/(T1-T2)*Ft + hb**2*mu*Ab/(B1-B2)*Fb
-     $     + 2d0*ht*hb*FAp)/sbe/cbe
+     $     + 2d0*ht*hbFAp)/sbe/cbe
       
       DMA = k*DMA
       
-- 
2.43.0


From 6fef37e699be9beefde376e737ab6671b1181d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 26/44] fix: libDSZ must not depend on libHimalaya

The O(at*as) limit for equal stop masses uses the phi function of the
Fortran routines, which belongs to the same library.
---
 source/himalaya/mh2l/DSZHiggs.cpp | 5 +----
 source/himalaya/mh2l/DSZHiggs.h   | 3 +++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index 64abd66..70036ad 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -7,7 +7,6 @@
 
 #include "himalaya/mh2l/DSZHiggs.hpp"
 #include "himalaya/mh2l/DSZHiggs.h"
-#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
 #include "himalaya/misc/CouplingOrders.hpp"
 #include <cmath>
 #include <iostream>
@@ -35,9 +34,7 @@ template <typename T> T logabs(T x) { return std::log(std::abs(x)); }
 /// phi(x,y,z) function, valid for either sign of the Källén function
 double phi(double x, double y, double z)
 {
-   const double del = sqr(z - x - y) - 4*x*y;
-
-   return 2*z/del*mh2_eft::threshold_loop_functions::phi_xyz(x, y, z);
+   return phi_(&x, &y, &z);
 }
 
 /// First derivative of phi[t,T,g] w.r.t. T
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index cc62d7d..a2d23b5 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -189,6 +189,9 @@ int taubotodd_(double * t, double * b,
             double * q, double * mu, double * tanb, double * vv,
             double * dma);
 
+/// function Phi(x,y,z) of Davydychev and Tausk, Nucl. Phys. B397 (1993) 23
+double phi_(double * x, double * y, double * z);
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 47d14b9a3f0c6001e7728ae6e78e34e1cd47bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 27/44] fix: phi function of the O(yt^4*yb^2, yt^2*yb^4, yb^6,
 yt^6, ytau^6) threshold corrections had a wrong normalization

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 36d04f1..f723c70 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -119,7 +119,9 @@ double deltaxyz(double x, double y, double z) noexcept
  */
 double phixyz(double x, double y, double z) noexcept
 {
-   return threshold_loop_functions::phi_xyz(x, y, z);
+   // phi_xyz(x,y,z) = Phi(x,y,z) * lambda^2(x,y,z)/(2*z)
+   const double delta = deltaxyz(x, y, z);
+   return 2*z*threshold_loop_functions::phi_xyz(x, y, z)/delta;
 }
 
 } // anonymous namespace
-- 
2.43.0


From 9c0c3b6374302729e59a773391e8399d99ed48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 28/44] fix: O(yt^6) threshold correction used inconsistently
 shifted masses

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f723c70..88edb9d 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1393,19 +1393,21 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt4 = pow2(Xt2);
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
-   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
 
    if (is_equal_rel(mQ32, mU32, 0.1) &&
        (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
       return getDeltaLambdaYt6_SUSYHD(omitLogs);
    }
 
-   mQ32 = p.mq2(2,2) * (1.02);
-   mU32 = p.mu2(2,2) * (0.98);
+   // shift apart
+   const double shift = mU32 > mQ32 ? -0.02 : 0.02;
+   mQ32 = p.mq2(2,2) * (1 + shift);
+   mU32 = p.mu2(2,2) * (1 - shift);
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
    const double Mu = p.mu * std::sqrt(1.03);
    const double Mu2 = pow2(Mu);
+   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR = omitLogs*std::log(Mu2 / MR2);
 
    return (18*pow2(cbeta)*pow2(log(mA2/MR2)))/pow2(sbeta) - (288*Yt*pow2(cbeta)*
-- 
2.43.0


From b4bf32a9fa9be7b7d3a7236bcf32b8e4cb021be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 29/44] fix: unstable general expressions of the threshold
 corrections were used for degenerate masses

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 40 ++++++++++++++++---
 .../himalaya/mh2_eft/ThresholdCalculator.hpp  |  6 +++
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 88edb9d..d566ede 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -157,50 +157,80 @@ ThresholdCalculator::ThresholdCalculator(
 
       if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps &&
           std::abs(m3 - std::sqrt(msq2)) < eps) {
+         const bool is_close = isGeneralCloseToLimit(Limits::DEGENERATE);
          const double lim = pref * getDeltaYtAlphas2(Limits::DEGENERATE, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const Temporarily_set<double> tmp_set_msq2(msq2, shifted_msq2);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!is_close || !isGeneralStable(exact, exactShifted, lim))
             p.massLimit3LThreshold = static_cast<int>(Limits::DEGENERATE);
       } else if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps) {
+         const bool is_close = isGeneralCloseToLimit(Limits::MQ3_EQ_MU3_EQ_M3);
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3_EQ_M3, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!is_close || !isGeneralStable(exact, exactShifted, lim))
             p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_MU3_EQ_M3);
       } else if (std::abs(mQ3 - mU3) < eps) {
+         const bool is_close = isGeneralCloseToLimit(Limits::MQ3_EQ_MU3);
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!is_close || !isGeneralStable(exact, exactShifted, lim))
             p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_MU3);
       } else if (std::abs(mQ3 - m3) < eps) {
+         const bool is_close = isGeneralCloseToLimit(Limits::MQ3_EQ_M3);
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_M3, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!is_close || !isGeneralStable(exact, exactShifted, lim))
             p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_M3);
       } else if (std::abs(mU3 - m3) < eps2) {
+         const bool is_close = isGeneralCloseToLimit(Limits::MU3_EQ_M3);
          const double lim = pref*getDeltaYtAlphas2(Limits::MU3_EQ_M3, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!is_close || !isGeneralStable(exact, exactShifted, lim))
             p.massLimit3LThreshold = static_cast<int>(Limits::MU3_EQ_M3);
       }
    }
 }
 
+/**
+ * Checks if the general mass case agrees with the limit for all
+ * threshold corrections of O(at*as^n).  If masses are close to each
+ * other, a deviation is due to numerical instabilities of the general
+ * mass case.
+ *
+ * @param limit the limit that is close to the parameter point
+ *
+ * @return true if the general mass case agrees with the limit
+ */
+bool ThresholdCalculator::isGeneralCloseToLimit(Limits limit) const
+{
+   const double eps = 0.03;
+   // scale: typical size of the correction
+   const auto is_close = [eps] (double exact, double lim, double scale) {
+      return std::abs(exact - lim) <= eps*(scale + std::abs(lim));
+   };
+
+   return is_close(getDeltaYtAlphas(Limits::GENERAL, 1), getDeltaYtAlphas(limit, 1), 1) &&
+          is_close(getDeltaYtAlphas2(Limits::GENERAL, 1), getDeltaYtAlphas2(limit, 1), 10) &&
+          is_close(getDeltaLambdaAlphat(Limits::GENERAL, 1), getDeltaLambdaAlphat(limit, 1), 10) &&
+          is_close(getDeltaLambdaAlphatAlphas(Limits::GENERAL, 1), getDeltaLambdaAlphatAlphas(limit, 1), 100) &&
+          is_close(getDeltaLambdaAlphatAlphas2(Limits::GENERAL, 1), getDeltaLambdaAlphatAlphas2(limit, 1), 1000);
+}
+
 /**
  * Returns a specific threshold correction
  * @param couplingOrder coupling order of threshold correction
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index 6bd3eea..b257cf7 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -68,6 +68,12 @@ public:
     */
    void setXtOrderOfDeltaLambdaAtAs2(int xtOrder);
 private:
+   /**
+    * Checks if the general mass case agrees with a given mass limit
+    * @param limit an integer key for a mass limit
+    * @return true if the general mass case agrees with the limit
+    */
+   bool isGeneralCloseToLimit(Limits limit) const;
    /**
     * Returns delta g3_as in the MSbar scheme for a given mass limit
     * @param omitLogs an integer key to omit all mu terms
-- 
2.43.0


From 40e5f3751ba52c5378a839b08dcf9bc0bb67d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 30/44] fix: O(yt^6) corrections were switched off for
 vanishing bottom mass

---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp     | 1 -
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 7 +++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index b966552..3537aa9 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -99,7 +99,6 @@ Mh2EFTCalculator::Mh2EFTCalculator(const himalaya::Parameters& p_, bool verbose)
         setCorrectionFlag(CouplingOrders::YT2YB4  , 0);
         setCorrectionFlag(CouplingOrders::YB2YT4  , 0);
         setCorrectionFlag(CouplingOrders::YTAU4YB2, 0);
-        setCorrectionFlag(CouplingOrders::YT6     , 0);
     }
 
     if (std::abs(p.Mtau) < eps) {
diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index e8e945f..c1f2bc5 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -15,6 +15,7 @@
 #include "himalaya/misc/Logger.hpp"
 #include "himalaya/misc/Numerics.hpp"
 #include "himalaya/misc/Powers.hpp"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <tuple>
@@ -94,7 +95,6 @@ MSSM_mass_eigenstates::MSSM_mass_eigenstates(const Parameters& pars_, bool only_
 
    if (std::abs(pars_.Mb) < eps) {
       orders.at(CouplingOrders::G32YB4) = 0;
-      orders.at(CouplingOrders::YT6) = 0;
       orders.at(CouplingOrders::YB6) = 0;
       orders.at(CouplingOrders::YTAU2YB4) = 0;
       orders.at(CouplingOrders::YTAU4YB2) = 0;
@@ -545,8 +545,11 @@ RM22 MSSM_mass_eigenstates::delta_mh2_2loop() const
    }
 
    if (orders.at(CouplingOrders::YT6)) {
+      // the expressions contain mb^2*log(mb^2) and are numerically
+      // unstable for tiny mb
+      const auto mb2_min = 1e-4;
       dmh += delta_mh2_2loop_at_at(
-         mt2, mb2, mA2, mst12, mst22, msb12, msb22,
+         mt2, std::max(mb2, mb2_min), mA2, mst12, mst22, msb12, msb22,
          sxt, cxt, sxb, cxb, scale2, mu, tanb, vev2,
          include_heavy_higgs, orders.at(CouplingOrders::ONLY_AT_AS));
    }
-- 
2.43.0


From 4b76fcdf15657bae9e30819c9392cdeffceb18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 31/44] fix: Mathematica interface returned corrections beyond
 the requested loop order

---
 .../himalaya/LibraryLink/Himalaya_LibraryLink.cpp   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 178bb44..7ee3aa7 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -406,7 +406,14 @@ Results calculate_results(const Data& data)
       const auto dmh2_eft_2l = meft.getDeltaMh2EFT2Loop(1,1);
       const auto zero = 0.;
 
-      res.eft = std::make_tuple(dmh2_eft_0l, dmh2_eft_1l, dmh2_eft_2l, 0.);
+      // skip corrections beyond the requested loop order
+      const auto truncate = [&data] (Results::Loop_corrections corr) {
+         if (data.loopOrder < 1) std::get<1>(corr) = 0.;
+         if (data.loopOrder < 2) std::get<2>(corr) = 0.;
+         return corr;
+      };
+
+      res.eft = truncate(std::make_tuple(dmh2_eft_0l, dmh2_eft_1l, dmh2_eft_2l, 0.));
 
       // calculate fixed-order corrections
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo(data.pars);
@@ -416,8 +423,8 @@ Results calculate_results(const Data& data)
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo_dom(data.pars, true);
       const auto dmh2_fo_dom = mfo_dom.calculate_Mh2(); // 0L, 1L, 2L
 
-      res.fo = std::tuple_cat(dmh2_fo, std::tie(zero));
-      res.fo_dom = std::tuple_cat(dmh2_fo_dom, std::tie(zero));
+      res.fo = truncate(std::tuple_cat(dmh2_fo, std::tie(zero)));
+      res.fo_dom = truncate(std::tuple_cat(dmh2_fo_dom, std::tie(zero)));
    }
 
    return res;
-- 
2.43.0


From c7a3a568985233592c86b98d87cfae056b806511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:27 +0000
Subject: [PATCH 32/44] fix: eigenvalues of non-finite matrices were read
 uninitialized

---
 source/himalaya/HierarchyCalculator.cpp |  5 +++++
 source/himalaya/Himalaya_interface.cpp  |  9 +++++++++
 source/himalaya/mh2_fo/Linalg.hpp       | 11 +++++++++++
 3 files changed, 25 insertions(+)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index f3a008d..953cfca 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -51,6 +51,11 @@ namespace {
  */
 double calcSmallestEigenvalue(const Eigen::Matrix2d& matrix)
 {
+   // Eigen leaves the eigenvalues uninitialized for non-finite matrices
+   if (!matrix.allFinite()) {
+      return std::numeric_limits<double>::quiet_NaN();
+   }
+
    Eigen::EigenSolver<Eigen::Matrix2d> solver(matrix, false);
 
    return std::sqrt(solver.eigenvalues().real().minCoeff());
diff --git a/source/himalaya/Himalaya_interface.cpp b/source/himalaya/Himalaya_interface.cpp
index 62d110e..15b3ae7 100644
--- a/source/himalaya/Himalaya_interface.cpp
+++ b/source/himalaya/Himalaya_interface.cpp
@@ -77,6 +77,10 @@ void sort_ev(V2& ev, double& theta) noexcept
 /// calculates mass eigenvalues (in GeV), sin(2*theta) and theta
 std::tuple<V2,double,double> calculate_MSf_s2f(const RM22& M)
 {
+   if (!M.allFinite()) {
+      throw std::runtime_error("DR sfermion mass matrix is not finite.");
+   }
+
    const Eigen::SelfAdjointEigenSolver<RM22> es(M);
    RM22 ev = es.eigenvectors().real();
    V2 ew = es.eigenvalues();
@@ -120,6 +124,11 @@ void calc_theta(double& theta, double& s2t)
 
 RM33 h_svd(const RM33& M)
 {
+   // Eigen leaves the singular values uninitialized for non-finite matrices
+   if (!M.allFinite()) {
+      return RM33::Constant(NaN);
+   }
+
    Eigen::JacobiSVD<RM33> svd(M);
    return svd.singularValues().reverse().asDiagonal();
 }
diff --git a/source/himalaya/mh2_fo/Linalg.hpp b/source/himalaya/mh2_fo/Linalg.hpp
index 886a534..29413d8 100644
--- a/source/himalaya/mh2_fo/Linalg.hpp
+++ b/source/himalaya/mh2_fo/Linalg.hpp
@@ -48,6 +48,12 @@ void svd_eigen
  Eigen::Matrix<Scalar, M, M> *u,
  Eigen::Matrix<Scalar, N, N> *vh)
 {
+    if (!m.allFinite()) { // Eigen leaves the result uninitialized
+	s.setConstant(std::numeric_limits<Real>::quiet_NaN());
+	if (u)  u->setConstant(std::numeric_limits<Real>::quiet_NaN());
+	if (vh) vh->setConstant(std::numeric_limits<Real>::quiet_NaN());
+	return;
+    }
     Eigen::JacobiSVD<Eigen::Matrix<Scalar, M, N> >
 	svd(m, (u ? Eigen::ComputeFullU : 0) | (vh ? Eigen::ComputeFullV : 0));
     s = svd.singularValues();
@@ -61,6 +67,11 @@ void hermitian_eigen
  Eigen::Array<Real, N, 1>& w,
  Eigen::Matrix<Scalar, N, N> *z)
 {
+    if (!m.allFinite()) { // Eigen leaves the result uninitialized
+	w.setConstant(std::numeric_limits<Real>::quiet_NaN());
+	if (z) z->setConstant(std::numeric_limits<Real>::quiet_NaN());
+	return;
+    }
     Eigen::SelfAdjointEigenSolver<Eigen::Matrix<Scalar,N,N> >
 	es(m, z ? Eigen::ComputeEigenvectors : Eigen::EigenvaluesOnly);
     w = es.eigenvalues();
-- 
2.43.0


From e0d41590c6b58fa5b7187bba22caf0abc8b9f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 33/44] fix: two-loop yb^6, ytau^6, yt^2*yb^4, yt^4*yb^2
 thresholds for degenerate masses and mu < 0

The expressions for degenerate masses missed factors 1/cos^6(beta) etc.
(and a factor 1/3 for ytau^6) and the logarithms of the renormalization
scale, and ytau^6 used them for any mu and MA.  The general expressions
are now used with slightly split masses, as for yt^6.  The terms linear in
Xt*mu and Xb*mu did not change sign with mu.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 183 ++++++------------
 1 file changed, 60 insertions(+), 123 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index d566ede..bd5b724 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -14,10 +14,12 @@
 #include "himalaya/misc/Numerics.hpp"
 #include "himalaya/misc/Powers.hpp"
 #include "himalaya/misc/RAII.hpp"
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <limits>
 #include <stdexcept>
+#include <vector>
 
 /**
  * @file ThresholdCalculator.cpp
@@ -30,6 +32,14 @@
 namespace himalaya {
 namespace mh2_eft {
 namespace {
+   /// moves masses apart which differ by less than 1%
+   void shift_apart(std::vector<double*> m2)
+   {
+      std::sort(m2.begin(), m2.end(), [] (const double* a, const double* b) { return *a < *b; });
+
+      for (std::size_t i = 1; i < m2.size(); i++)
+         *m2[i] = std::max(*m2[i], 1.02*(*m2[i - 1]));
+   }
 
 /// threshold loop functions from [1504.05200] Eq.(14)
 double f1HD(double x) noexcept
@@ -948,8 +958,8 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
    using himalaya::dilog;
 
    const double MR2 = pow2(p.scale);
-   const double lMR = omitLogs*log(MR2);
    const double mQ32 = p.mq2(2,2);
+   const double lMR = omitLogs*log(MR2);
    const double mD32 = p.md2(2,2);
    const double m32 = pow2(p.MG);
    const double mQ3 = std::sqrt(mQ32);
@@ -1108,34 +1118,25 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    using himalaya::dilog;
 
    const double MR2 = pow2(p.scale);
-   const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
+   double mQ32 = p.mq2(2,2);
+   double mD32 = p.md2(2,2);
+   double Mu2 = pow2(p.mu);
+   shift_apart({&mQ32, &mD32, &Mu2});
    const double mQ3 = std::sqrt(mQ32);
    const double mD3 = std::sqrt(mD32);
+   const double Mu = std::sqrt(Mu2);
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double Xb = calcXb();
-   const double Yb = calcYb();
-   const double Mu = p.mu;
+   // the corrections are invariant under a simultaneous sign change of mu and
+   // all trilinear couplings; the expressions below are valid for mu > 0
+   const double sgn = p.mu < 0 ? -1. : 1.;
+   const double Xb = sgn*calcXb();
+   const double Yb = sgn*calcYb();
    const double Xb2 = pow2(Xb);
    const double mA2 = pow2(mA);
-   const double Mu2 = pow2(Mu);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mD3 - mQ3) < eps && std::abs(mA - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (30.*pow4(cbeta)*(Xb2*pow2(M)*(Xb2*(0.2 + 0.7*pow2(cbeta) - 0.1*pow2(
-        sbeta)) + 0.17495808000000004*Xb*Yb*pow2(sbeta) - 0.004229546666666551*
-        pow2(sbeta)*pow2(Yb)) + (Xb2*(-0.4 - 2.8*pow2(cbeta) + 
-        0.5375628799999999*pow2(sbeta)) + 0.10016767999999983*Xb*Yb*pow2(sbeta)
-        + 0.025041919999999957*pow2(sbeta)*pow2(Yb))*pow4(M) - 
-        0.0041457066666666705*pow2(sbeta)*pow2(Yb)*pow4(Xb) + (0.8 + pow2(
-        cbeta) - 0.6699863197821283*pow2(sbeta))*pow6(M) - 0.06666666666666667*
-        pow2(cbeta)*pow6(Xb)))/pow6(M);
-   }
 
    return 3*(10 - 5/pow2(cbeta) - (2*mD32)/(mQ32*pow2(cbeta)) - (4*mQ32)/(mD32*
         pow2(cbeta)) + (2*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (8*Mu2)/(mD32*
@@ -1811,38 +1812,25 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    using himalaya::dilog;
 
    const double MR2 = pow2(p.scale);
+   double mL32 = p.ml2(2,2);
+   double mE32 = p.me2(2,2);
+   double Mu2 = pow2(p.mu);
+   shift_apart({&mL32, &mE32, &Mu2});
    const double lMR = omitLogs*log(MR2);
-   const double mL32 = p.ml2(2,2);
-   const double mE32 = p.me2(2,2);
    const double mL3 = std::sqrt(mL32);
    const double mE3 = std::sqrt(mE32);
+   const double Mu = std::sqrt(Mu2);
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    const double sbe = sbeta;
    const double cbe = cbeta;
-   const double Xtau = calcXtau();
-   const double Ytau = calcYtau();
-   const double Mu = p.mu;
-
-   if (std::abs(mE3 - mL3) < 0.1*mE3) {
-     const double lMS = log(mL32/MR2);
-     const double M = mL3;
-     const double Xtau2 = pow2(Xtau);
-     return (pow2(cbe)*(cbe*(4.994969600000008 - 48.*lMS)*sbe*pow3(M)*pow3(Xtau)
-     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(99. - 40.5*pow2(sbe))
-     + 25.88317440000001*pow2(sbe)) + (-96. + 6.75*lMS)*pow4(cbe) + lMS*(74.25
-     - 99.*pow2(sbe) + 6.75*pow4(sbe))) + pow2(M)*(-0.12437120000000013
-     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-22.5 + 4.5*pow2(sbe)))
-     + (39. - 0.75*lMS)*pow4(cbe) + lMS*(-18.75 + 22.5*pow2(sbe)
-     - 0.75*pow4(sbe)))*pow4(Xtau) + cbe*(4.507545599999993 + 108.*lMS)*sbe
-     *Xtau*pow5(M) + cbe*(-0.24874240000000025 + 6.*lMS)*M*sbe*pow5(Xtau)
-     + (0.7512575999999989 + pow2(cbe)*(3.9004104065361593*pow2(sbe)
-     + lMS*(-30. + 58.5*pow2(sbe))) + (54. - 9.75*lMS + 18.*pow2(lMS))
-     *pow4(cbe) + lMS*(-2.25 + 30.*pow2(sbe) - 9.75*pow4(sbe)))*pow6(M)
-     + (lMS*(1.5 - 1.5*pow2(sbe)) + pow2(cbe)*(1.5*lMS - 0.12437120000000013
-     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau)))/pow6(M);
-   }
+   // the corrections are invariant under a simultaneous sign change of mu and
+   // all trilinear couplings; the expressions below are valid for mu > 0
+   const double sgn = p.mu < 0 ? -1. : 1.;
+   const double Xtau = sgn*calcXtau();
+   const double Ytau = sgn*calcYtau();
+
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
         pow2(mE3)*(pow2(mE3) - pow2(mL3))*pow2(mL3)*pow2(log(mE3)) - 4*pow2(
@@ -2227,56 +2215,30 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    using himalaya::dilog;
 
    const double MR2 = pow2(p.scale);
-   const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
-   const double mU32 = p.mu2(2,2);
+   double mQ32 = p.mq2(2,2);
+   double mD32 = p.md2(2,2);
+   double mU32 = p.mu2(2,2);
+   double Mu2 = pow2(p.mu);
+   shift_apart({&mQ32, &mD32, &mU32, &Mu2});
    const double mQ3 = std::sqrt(mQ32);
-   const double mU3 = std::sqrt(mU32);
    const double mD3 = std::sqrt(mD32);
+   const double mU3 = std::sqrt(mU32);
+   const double Mu = std::sqrt(Mu2);
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double Xt = calcXt();
-   const double Yt = calcYt();
-   const double Xb = calcXb();
-   const double Yb = calcYb();
-   const double Mu = p.mu;
-   const double Mu2 = pow2(Mu);
+   // the corrections are invariant under a simultaneous sign change of mu and
+   // all trilinear couplings; the expressions below are valid for mu > 0
+   const double sgn = p.mu < 0 ? -1. : 1.;
+   const double Xt = sgn*calcXt();
+   const double Yt = sgn*calcYt();
+   const double Xb = sgn*calcXb();
+   const double Yb = sgn*calcYb();
    const double Xt2 = pow2(Xt);
    const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (2.675765602178715*pow2(cbeta)*(cbeta*(1.4948992530373513*sbeta*pow3(M)*
-        pow3(Xb) - 8.96939551822411*sbeta*Xt*pow5(M)) + pow4(cbeta)*(Xb2*pow2(
-        M)*(-0.3737248132593378*Xb2 - 0.34273774426277803*Xb*Yt - 
-        0.514106616394167*pow2(Yt)) + (3.5039051224688698*Xb2 + 
-        5.046224971651371*Xb*Yt + 1.2615562429128429*pow2(Yt))*pow4(M) + 
-        0.05195844587770295*pow2(Yt)*pow4(Xb) + 1.*pow6(M)) + pow2(sbeta)*(-
-        0.20235594112794902*Xb2*Xt2*pow2(sbeta)*pow2(Yb) + pow2(M)*(
-        1.4948992530373513*Xb*Xt2*Yb*pow2(sbeta) + 0.7474496265186756*Xt2*pow2(
-        sbeta)*pow2(Yb) + Xb2*(1.1211744397780137*Xt2 + 1.4948992530373513*Xt*
-        Yb*pow2(sbeta) + 0.7474496265186756*pow2(sbeta)*pow2(Yb))) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb)*pow2(sbeta) - 
-        7.0078102449377395*Xt*Yb*pow2(sbeta) + Xb2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) + Xt2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) - 3.5039051224688698*pow2(sbeta)*pow2(
-        Yb))*pow4(M) + (-17.93879103644822 - 10.511715367406609*pow2(sbeta))*
-        pow6(M)) + pow2(cbeta)*(Xt*(0.7474496265186756*Xb*Xt - 
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xb) + Xb*pow2(M)*(Xb2*(-
-        0.342737744262778*Yb - 0.34273774426277803*Yt)*pow2(sbeta) + 
-        2.9897985060747025*Xt*Yb*Yt*pow2(sbeta) + Xb*Xt*(-6.727046638668082*Xt
-        + 1.4948992530373513*Yb + 1.4948992530373513*Yt)*pow2(sbeta) + (
-        0.3737248132593378 + 0.3737248132593378*pow2(sbeta))*pow3(Xb)) + (-
-        8.407868305684794*Xb2 + Xt*(8.96939551822411*Xt - 7.0078102449377395*Yb
-        - 7.0078102449377395*Yt) + Xb*(-7.0078102449377395*Xt + 
-        5.0462249716513705*Yb + 5.0462249716513705*Yt))*pow2(sbeta)*pow4(M) + (
-        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
-   }
 
    return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
         mD32 - mQ32)*sbeta) + (48*Xt*std::abs(Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
@@ -2627,56 +2589,31 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    using himalaya::dilog;
 
    const double MR2 = pow2(p.scale);
-   const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
-   const double mU32 = p.mu2(2,2);
+   double mQ32 = p.mq2(2,2);
+   double mD32 = p.md2(2,2);
+   double mU32 = p.mu2(2,2);
+   double Mu2 = pow2(p.mu);
+   shift_apart({&mQ32, &mD32, &mU32, &Mu2});
    const double mQ3 = std::sqrt(mQ32);
-   const double mU3 = std::sqrt(mU32);
    const double mD3 = std::sqrt(mD32);
+   const double mU3 = std::sqrt(mU32);
+   const double Mu = std::sqrt(Mu2);
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double Xt = calcXt();
-   const double Yt = calcYt();
-   const double Xb = calcXb();
-   const double Yb = calcYb();
-   const double Mu = p.mu;
-   const double Mu2 = pow2(Mu);
+   // the corrections are invariant under a simultaneous sign change of mu and
+   // all trilinear couplings; the expressions below are valid for mu > 0
+   const double sgn = p.mu < 0 ? -1. : 1.;
+   const double Xt = sgn*calcXt();
+   const double Yt = sgn*calcYt();
+   const double Xb = sgn*calcXb();
+   const double Yb = sgn*calcYb();
    const double Xt2 = pow2(Xt);
    const double Xt4 = pow2(Xt2);
    const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR  = omitLogs*std::log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mU3);
-     return (2.675765602178715*pow2(sbeta)*(cbeta*M*sbeta*(-0.7474496265186756*Xb*Xt4
-        + (8.96939551822411*Xb + 1.4948992530373513*Xt)*Xt2*pow2(M) - 
-        8.96939551822411*Xb*pow4(M)) + pow4(cbeta)*(Yt*(1.4948992530373513*Xb*
-        Xt2 + Xb2*(1.4948992530373513*Xt + 0.7474496265186756*Yt) + 
-        0.7474496265186756*Xt2*Yt)*pow2(M) - 0.20235594112794902*Xb2*Xt2*pow2(
-        Yt) + (1.2615562429128426*Xb2 - 7.0078102449377395*Xb*Xt + 
-        1.2615562429128426*Xt2 - 7.0078102449377395*Xb*Yt - 7.0078102449377395*
-        Xt*Yt - 3.5039051224688698*pow2(Yt))*pow4(M) - 10.511715367406609*pow6(
-        M)) + pow2(sbeta)*(0.05195844587770295*Xt4*pow2(sbeta)*pow2(Yb) + Xt2*
-        pow2(M)*(Xt2*(0.3737248132593378 - 0.560587219889007*pow2(sbeta)) - 
-        0.342737744262778*Xt*Yb*pow2(sbeta) - 0.514106616394167*pow2(sbeta)*
-        pow2(Yb)) + pow2(sbeta)*(5.746254002024897*Xt2 + 5.046224971651371*Xt*
-        Yb + 1.2615562429128429*pow2(Yb))*pow4(M) + (8.969395518224111 + 1.*
-        pow2(sbeta))*pow6(M)) + pow2(cbeta)*(Xt*pow2(M)*(Xb2*Xt*(
-        1.1211744397780137 - 2.2423488795560274*pow2(sbeta)) + Xt2*(-
-        1.1211744397780137*Xt - 0.342737744262778*Yb - 0.342737744262778*Yt)*
-        pow2(sbeta) + Xb*(1.4948992530373513*Xt*Yb + 1.4948992530373513*Xt*Yt +
-        2.9897985060747025*Yb*Yt)*pow2(sbeta)) + Xb*(0.3737248132593378*Xb*Xt -
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xt) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb - 7.0078102449377395*Yt)*
-        pow2(sbeta) + Xb2*(-2.2423488795560274 + 8.96939551822411*pow2(sbeta))
-        + Xt*((5.0462249716513705*Yb + 5.0462249716513705*Yt)*pow2(sbeta) + Xt*
-        (-2.2423488795560274 + 9.530922730763425*pow2(sbeta))))*pow4(M) + (-
-        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
-   }
 
    return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
-- 
2.43.0


From 95bb53d9e0fd6091fa8f3830d4fef059b956cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:27 +0000
Subject: [PATCH 34/44] fix: logarithm of a dimensionful quantity in yb^4*g3^2
 and ytau^6 thresholds with omitted logarithms

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index bd5b724..42d9bf1 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -959,7 +959,7 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
 
    const double MR2 = pow2(p.scale);
    const double mQ32 = p.mq2(2,2);
-   const double lMR = omitLogs*log(MR2);
+   const double lMR = omitLogs*log(MR2) + (1 - omitLogs)*log(mQ32);
    const double mD32 = p.md2(2,2);
    const double m32 = pow2(p.MG);
    const double mQ3 = std::sqrt(mQ32);
@@ -1816,7 +1816,7 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    double mE32 = p.me2(2,2);
    double Mu2 = pow2(p.mu);
    shift_apart({&mL32, &mE32, &Mu2});
-   const double lMR = omitLogs*log(MR2);
+   const double lMR = omitLogs*log(MR2) + (1 - omitLogs)*log(mL32);
    const double mL3 = std::sqrt(mL32);
    const double mE3 = std::sqrt(mE32);
    const double Mu = std::sqrt(Mu2);
-- 
2.43.0


From 1223e14d1473d41b872d7c4a33e4f3f67dbfa17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 35/44] fix: unstable DR'-to-MSbar shift of O(at*as^2) and
 selection of the mass limit for nearly degenerate masses

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 1653 +----------------
 1 file changed, 80 insertions(+), 1573 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 42d9bf1..f55dfd3 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -165,8 +165,12 @@ ThresholdCalculator::ThresholdCalculator(
       const double shifted_msq2 = pow2(mQ3 + std::abs(std::sqrt(msq2) - mQ3)/2);
       const double shifted_m3   = mQ3 + std::abs(m3 - mQ3)/2;
 
-      if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps &&
-          std::abs(m3 - std::sqrt(msq2)) < eps) {
+      // m3 (msq) may be close to only one of the other masses
+      const bool m3_close = std::min(std::abs(mU3 - m3), std::abs(mQ3 - m3)) < eps;
+      const bool msq_close = std::min(std::abs(m3 - std::sqrt(msq2)),
+                                      std::abs(mQ3 - std::sqrt(msq2))) < eps;
+
+      if (std::abs(mQ3 - mU3) < eps && m3_close && msq_close) {
          const bool is_close = isGeneralCloseToLimit(Limits::DEGENERATE);
          const double lim = pref * getDeltaYtAlphas2(Limits::DEGENERATE, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
@@ -176,7 +180,7 @@ ThresholdCalculator::ThresholdCalculator(
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          if (!is_close || !isGeneralStable(exact, exactShifted, lim))
             p.massLimit3LThreshold = static_cast<int>(Limits::DEGENERATE);
-      } else if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps) {
+      } else if (std::abs(mQ3 - mU3) < eps && m3_close) {
          const bool is_close = isGeneralCloseToLimit(Limits::MQ3_EQ_MU3_EQ_M3);
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3_EQ_M3, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
@@ -234,11 +238,18 @@ bool ThresholdCalculator::isGeneralCloseToLimit(Limits limit) const
       return std::abs(exact - lim) <= eps*(scale + std::abs(lim));
    };
 
-   return is_close(getDeltaYtAlphas(Limits::GENERAL, 1), getDeltaYtAlphas(limit, 1), 1) &&
-          is_close(getDeltaYtAlphas2(Limits::GENERAL, 1), getDeltaYtAlphas2(limit, 1), 10) &&
-          is_close(getDeltaLambdaAlphat(Limits::GENERAL, 1), getDeltaLambdaAlphat(limit, 1), 10) &&
-          is_close(getDeltaLambdaAlphatAlphas(Limits::GENERAL, 1), getDeltaLambdaAlphatAlphas(limit, 1), 100) &&
-          is_close(getDeltaLambdaAlphatAlphas2(Limits::GENERAL, 1), getDeltaLambdaAlphatAlphas2(limit, 1), 1000);
+   const auto are_close = [&] (int logs) {
+      return is_close(getDeltaYtAlphas(Limits::GENERAL, logs), getDeltaYtAlphas(limit, logs), 1) &&
+             is_close(getDeltaYtAlphas2(Limits::GENERAL, logs), getDeltaYtAlphas2(limit, logs), 10) &&
+             is_close(getDeltaLambdaAlphat(Limits::GENERAL, logs), getDeltaLambdaAlphat(limit, logs), 10) &&
+             is_close(getDeltaLambdaAlphatAlphas(Limits::GENERAL, logs), getDeltaLambdaAlphatAlphas(limit, logs), 100) &&
+             is_close(getDeltaLambdaAlphatAlphas2(Limits::GENERAL, logs), getDeltaLambdaAlphatAlphas2(limit, logs), 1000) &&
+             is_close(getDRbarPrimeToMSbarXtTerms(Limits::GENERAL, 4, logs), getDRbarPrimeToMSbarXtTerms(limit, 4, logs), 1000) &&
+             is_close(getDRbarPrimeToMSbarXtTerms(Limits::GENERAL, 5, logs), getDRbarPrimeToMSbarXtTerms(limit, 5, logs), 1000) &&
+             is_close(getDRbarPrimeToMSbarXtTerms(Limits::GENERAL, 6, logs), getDRbarPrimeToMSbarXtTerms(limit, 6, logs), 1000);
+   };
+
+   return are_close(0) && are_close(1);
 }
 
 /**
@@ -4323,1586 +4334,82 @@ double ThresholdCalculator::getDRbarPrimeToMSbarShift(int xtOrder, int omitLogs,
 
 /**
  * Returns the DRbarPrime to MSbar shift of delta lambda 3L at a given xtOrder
+ *
  * @param limit an integer key for a mass limit
- * @param xtOrder an integer key to omit the Xt contributions starting at xtOrder + 1
+ * @param xtOrder an integer key to get a specific Xt order starting at 4
  * @param omitLogs an integer key to omit all log mu terms
  */
 double ThresholdCalculator::getDRbarPrimeToMSbarXtTerms(Limits limit, int xtOrder, int omitLogs) const
 {
-   using himalaya::dilog;
+   if (xtOrder < 4 || xtOrder > 6)
+      return 0;
 
-   const double Mst12 = pow2(p.MSt(0));
-   const double m32 = pow2(p.MG);
-   const double MR2 = pow2(p.scale);
-   const double mU32 = p.mu2(2,2);
-   const double mQ32 = p.mq2(2,2);
-   const double m3 = std::sqrt(m32);
-   const double mU3 = std::sqrt(mU32);
-   const double mQ3 = std::sqrt(mQ32);
-   const double msq = std::sqrt(msq2);
-   const double Xt = calcXt();
-   const double Xt4 = xtOrder != 4 ? 0 : pow4(Xt);
-   const double Xt5 = xtOrder != 5 ? 0 : pow5(Xt);
-   const double Xt6 = xtOrder != 6 ? 0 : pow6(Xt);
-   const double lmQ3MR = omitLogs * std::log(Mst12 / MR2) + std::log(mQ32 / Mst12);
-
-   switch (limit) {
-      case Limits::GENERAL: {
-         const double logQ3U3 = std::log(mQ32/mU32);
-         const double logQ3m3 = std::log(mQ32/m32);
-         const double logQ3mq = std::log(mQ32/msq2);
-
-         return
-         (-4*Xt4*(640*mQ32*(mQ32 - mU32)*mU32*logQ3U3*pow2(m32 - mQ32)*
-         pow2(m32 - mU32)*pow2(m3*(m32 - mQ32)*mU32*logQ3U3 + (mQ32 -
-         mU32)*logQ3m3*pow3(m3)) - 512*m3*mQ32*mU32*(-8*mQ32 + 4*lmQ3MR* mQ32 +
-         8*mU32 - 4*lmQ3MR*mU32 + (4*m32 - 2*(mQ32 + mU32))*dilog(1 - m32/mQ32)
-         + 2*(-2*m32 + mQ32 + mU32)*dilog(1 - m32/mU32) + 2*mQ32* logQ3U3 -
-         2*lmQ3MR*mQ32*logQ3U3 + 6*mU32*logQ3U3 - 2* lmQ3MR*mU32*logQ3U3 +
-         4*m32*logQ3m3*logQ3U3 - 2* m32*pow2(logQ3U3) + mQ32*pow2(logQ3U3) +
-         mU32*pow2(logQ3U3))*(m3*(m32 - mQ32)*mU32*logQ3U3 + (mQ32 -
-         mU32)*logQ3m3*pow3(m3))*pow3(m32 - mQ32)*pow3(m32 - mU32) - 4*pow2(m32
-         - mQ32)*pow2(m32 - mU32)*(6*pow2(m32 - mQ32)*pow2(m32 - mU32) - 12*
-         lmQ3MR*pow2(m32 - mQ32)*pow2(m32 - mU32) + 12*logQ3m3*pow2(m32 -
-         mQ32)*pow2(m32 - mU32) - (12*lmQ3MR - 10*logQ3mq - logQ3U3)*pow2(m32 -
-         mQ32)*pow2(m32 - mU32) + 16*(mQ32*(-m32 + mQ32)*(m32 - mU32)*mU32 +
-         (m32 - mQ32)*(m32 - mU32)*pow4(m3) + lmQ3MR*pow2(m32 -
-         mU32)*(2*m32*mQ32 - pow4(mQ3)) + (lmQ3MR - logQ3U3)*pow2(m32 -
-         mQ32)*(2*m32*mU32 - pow4(mU3)) - (lmQ3MR - logQ3m3)*pow4(m3)*(-2*
-         m32*(mQ32 + mU32) + 2*pow4(m3) + pow4(mQ3) + pow4(mU3))))*(mQ32*(mQ32
-         - mU32)*mU32*(-2*m32 + mQ32 + mU32)*dilog(1 - m32/mQ32) +
-         m32*mU32*pow4( mQ3) - lmQ3MR*m32*mU32*pow4(mQ3) +
-         m32*mU32*logQ3m3*pow4(mQ3) + 2*m32*mU32*logQ3U3*pow4(mQ3) -
-         2*lmQ3MR*m32*mU32*logQ3U3* pow4(mQ3) +
-         m32*mU32*pow2(logQ3U3)*pow4(mQ3) + m32*mQ32*pow4( mU3) -
-         lmQ3MR*m32*mQ32*pow4(mU3) + m32*mQ32*logQ3m3*pow4(mU3) -
-         2*m32*mQ32*logQ3U3*pow4(mU3) + 2*lmQ3MR*m32*mQ32*logQ3U3* pow4(mU3) -
-         m32*mQ32*pow2(logQ3U3)*pow4(mU3) + 12*pow4(mQ3)* pow4(mU3) -
-         8*lmQ3MR*pow4(mQ3)*pow4(mU3) + 4*logQ3U3*pow4(mQ3)* pow4(mU3) -
-         2*pow2(logQ3U3)*pow4(mQ3)*pow4(mU3) + mQ32*mU32* dilog(1 -
-         m32/mU32)*(2*m32*(mQ32 - mU32) - pow4(mQ3) + pow4(mU3)) -
-         m32*pow6(mQ3) + lmQ3MR*m32*pow6(mQ3) - 6*mU32*pow6(mQ3) + 4*lmQ3MR*
-         mU32*pow6(mQ3) - m32*logQ3m3*pow6(mQ3) + 3*mU32*logQ3U3* pow6(mQ3) -
-         2*lmQ3MR*mU32*logQ3U3*pow6(mQ3) - m32*pow6(mU3) + lmQ3MR*m32*pow6(mU3)
-         - 6*mQ32*pow6(mU3) + 4*lmQ3MR*mQ32*pow6(mU3) - m32*logQ3m3*pow6(mU3) -
-         7*mQ32*logQ3U3*pow6(mU3) + 2* lmQ3MR*mQ32*logQ3U3*pow6(mU3) -
-         2*mQ32*pow2(logQ3U3)* pow6(mU3)) + mQ32*mU32*(2*(mQ32 - mU32) - (mQ32
-         + mU32)*logQ3U3) *(12*(mQ32 - mU32)*pow2(-((m32 - mQ32)*((m32 -
-         mQ32)*(2*m32 - mU32)* mU32*logQ3U3 + (m32 - mU32)*((1 +
-         2*lmQ3MR)*mQ32*mU32 - 2* lmQ3MR*m32*(mQ32 + mU32) + (-1 +
-         2*lmQ3MR)*pow4(m3)))) + logQ3m3* pow4(m3)*(-2*m32*(mQ32 + mU32) +
-         2*pow4(m3) + pow4(mQ3) + pow4(mU3))) - 15*(m32 - mQ32)*(m32 -
-         mU32)*(mQ32 - mU32)*pow2(lmQ3MR - logQ3mq )*(-2*(mQ32 - msq2)*pow3(m32
-         - mU32)*(-3*m32*(mQ32 - msq2) + mQ32*(mQ32 + msq2) - 2*pow4(m3)) -
-         2*(msq2 - mU32)*pow3(m32 - mQ32)*(-3*m32*(msq2 - mU32) - mU32*(msq2 +
-         mU32) + 2*pow4(m3))) + 60*(m32 - mU32)*(mQ32 - mU32)*(msq2 -
-         mU32)*dilog(1 - msq2/mU32)*(-3*m32*(msq2 - mU32) - mU32*( msq2 + mU32)
-         + 2*pow4(m3))*pow4(m32 - mQ32) - 60*(m32 - mQ32)*(mQ32 - msq2)*(mQ32 -
-         mU32)*dilog(1 - msq2/mQ32)*(3*m32*(mQ32 - msq2) - mQ32*( mQ32 + msq2)
-         + 2*pow4(m3))*pow4(m32 - mU32) - 20*(mQ32 - mU32)*(lmQ3MR -
-         logQ3mq)*pow2(m32 - mQ32)*pow2(m32 - mU32)*(3*mQ32*msq2*pow4( mU3) +
-         pow4(mQ3)*(3*msq2*mU32 + 10*pow4(mU3)) + pow4(m3)*(-15*msq2*mU32 +
-         mQ32*(-15*msq2 + 44*mU32) + 11*pow4(mQ3) + 11*pow4(mU3)) + 3*m32*((3*
-         msq2 - 7*mU32)*pow4(mQ3) + 3*msq2*pow4(mU3) - mQ32*(4*msq2*mU32 + 7*
-         pow4(mU3))) + (-23*mQ32 + 18*msq2 - 23*mU32)*pow6(m3) + 12*pow8(m3)) +
-         (mQ32 - mU32)*pow2(m32 - mQ32)*pow2(m32 - mU32)*(-(mQ32*mU32*(6*mU32*(
-         10*msq2 + mU32) + mQ32*(60*msq2 + 169*mU32) + 6*pow4(mQ3))) +
-         pow4(m3)* (4*mQ32*(75*msq2 - 28*mU32) + 300*msq2*mU32 + 93*pow4(mQ3) +
-         93*pow4( mU3)) - 6*(47*mQ32 + 60*msq2 + 47*mU32)*pow6(m3) -
-         2*m32*(2*(45*msq2 - 52*mU32)*pow4(mQ3) + 9*(10*msq2 + mU32)*pow4(mU3)
-         - 8*mQ32*(15*msq2* mU32 + 13*pow4(mU3)) + 9*pow6(mQ3)) + 291*pow8(m3))
-         + 60*(m32 - mQ32)*( m32 - msq2)*(m32 - mU32)*(mQ32 - mU32)*dilog(1 -
-         m32/msq2)*(-(mQ32* msq2*mU32*(pow4(mQ3) + pow4(mU3))) + (-8*msq2*mU32
-         + mQ32*(-8*msq2 + 30*mU32) + 3*pow4(mQ3) + 3*pow4(mU3))*pow6(m3) -
-         pow4(m3)*((-9*msq2 + 15*mU32)*pow4(mQ3) - 9*msq2*pow4(mU3) +
-         3*mQ32*(2*msq2*mU32 + 5*pow4( mU3)) + pow6(mQ3) + pow6(mU3)) +
-         m32*(3*msq2*mU32*pow4(mQ3) + (-3*msq2 + 5*mU32)*pow6(mQ3) -
-         3*msq2*pow6(mU3) + mQ32*(3*msq2*pow4(mU3) + 5* pow6(mU3))) + (-8*mQ32
-         + 6*msq2 - 8*mU32)*pow8(m3) + 2*power10(m3)) + 2*(m32 - mQ32)*(m32 -
-         mU32)*dilog(1 - mQ32/mU32)*pow2(mQ32 - mU32)*((- 76*mQ32*mU32 +
-         34*pow4(mQ3) + 34*pow4(mU3))*pow6(m3) + 7*pow4(mU3)* pow6(mQ3) +
-         pow4(m3)*(65*mU32*pow4(mQ3) + 65*mQ32*pow4(mU3) - 29*pow6( mQ3) -
-         29*pow6(mU3)) + 7*pow4(mQ3)*pow6(mU3) - 14*(mQ32 + mU32)*pow8( m3) +
-         3*mU32*pow8(mQ3) + 3*mQ32*pow8(mU3) + m32*(-34*pow4(mQ3)*pow4( mU3) -
-         26*mU32*pow6(mQ3) - 26*mQ32*pow6(mU3) + 9*pow8(mQ3) + 9*pow8( mU3)) +
-         12*power10(m3)) - pow2(lmQ3MR - logQ3U3)*pow4(m32 - mQ32)*((-mQ32 +
-         mU32)*pow4(mU3)*(4*mQ32*mU32 + 3*pow4(mQ3) + 30*pow4( msq) +
-         21*pow4(mU3)) + (60*msq2*mU32 + mQ32*(-60*msq2 + 68*mU32) - 2*
-         pow4(mQ3) + 702*pow4(mU3))*pow6(m3) + 2*m32*mU32*(18*mU32*pow4(mQ3) +
-         6*mU32*(-15*msq2*mU32 + 5*pow4(msq) + 4*pow4(mU3)) +
-         mQ32*(90*msq2*mU32 - 30*pow4(msq) + 25*pow4(mU3)) - 3*pow6(mQ3)) +
-         pow4(m3)*(-33*mU32* pow4(mQ3) - 90*mU32*pow4(msq) +
-         3*mQ32*(-40*msq2*mU32 + 30*pow4(msq) - 47*pow4(mU3)) +
-         120*msq2*pow4(mU3) + 9*pow6(mQ3) - 347*pow6(mU3)) + ( 44*mQ32 -
-         556*mU32)*pow8(m3) + 128*power10(m3)) - 2*(mQ32 - mU32)*pow2( lmQ3MR -
-         logQ3m3)*(878*(mQ32 + mU32)*pow14(m3) - 262*pow16(m3) +
-         pow4(m3)*pow4(mQ3)*pow4(mU3)*(452*mQ32*mU32 + pow4(mQ3) + pow4(mU3)) -
-         pow12(m3)*(2972*mQ32*mU32 + 885*pow4(mQ3) + 885*pow4(mU3)) - 144*m32*(
-         mQ32 + mU32)*pow6(mQ3)*pow6(mU3) + 36*pow8(mQ3)*pow8(mU3) - pow8(m3)*(
-         2404*pow4(mQ3)*pow4(mU3) + 1004*mU32*pow6(mQ3) + 1004*mQ32*pow6(mU3) +
-         49*pow8(mQ3) + 49*pow8(mU3)) + 2*pow6(m3)*(184*pow4(mU3)*pow6(mQ3) +
-         184*pow4(mQ3)*pow6(mU3) + 79*mU32*pow8(mQ3) + 79*mQ32*pow8(mU3)) + 4*(
-         733*mU32*pow4(mQ3) + 733*mQ32*pow4(mU3) + 80*pow6(mQ3) +
-         80*pow6(mU3))* power10(m3)) + 2*lmQ3MR*(m32 - mQ32)*(m32 -
-         mU32)*(-10*(mQ32 - mU32)*( lmQ3MR - logQ3mq)*pow3(m32 - mU32)*(2*(mQ32
-         + 3*msq2)*pow4(m3) - 3*mQ32*pow4(msq) - 3*m32*(-6*mQ32*msq2 +
-         pow4(mQ3) + 3*pow4(msq)) + pow6(mQ3)) + (m32 - mU32)*((mQ32 -
-         mU32)*mU32*pow4(mQ3)*(128*mQ32*mU32 + 3*pow4(mQ3) - 3*(10*msq2*mU32 +
-         pow4(mU3))) + mQ32*pow4(m3)*(-5*(6* msq2 + 5*mU32)*pow4(mQ3) +
-         6*mQ32*(35*msq2*mU32 - 157*pow4(mU3)) - 180* msq2*pow4(mU3) +
-         106*pow6(mQ3) - 163*pow6(mU3)) + pow6(m3)*((-90*msq2 +
-         985*mU32)*pow4(mQ3) + mQ32*(90*msq2*mU32 + 622*pow4(mU3)) - 18*pow6(
-         mQ3) - 53*pow6(mU3)) + (-764*mQ32*mU32 - 365*pow4(mQ3) +
-         105*pow4(mU3)) *pow8(m3) + m32*mQ32*(6*pow4(mQ3)*(10*msq2*mU32 +
-         41*pow4(mU3)) - 279* mU32*pow6(mQ3) + 9*(10*msq2 + mU32)*pow6(mU3) +
-         mQ32*(-150*msq2*pow4( mU3) + 271*pow6(mU3)) + 9*pow8(mQ3)) +
-         4*(77*mQ32 - 13*mU32)*power10( m3)) - (mQ32 - mU32)*(lmQ3MR -
-         logQ3U3)*(mU32*(4*mQ32*mU32 + 3* pow4(mQ3) - 3*pow4(mU3))*pow6(mQ3) +
-         pow6(m3)*(-53*mU32*pow4(mQ3) + 57* mQ32*pow4(mU3) + 35*pow6(mQ3) +
-         pow6(mU3)) + m32*pow4(mQ3)*(-35*mU32* pow4(mQ3) + mQ32*pow4(mU3) +
-         9*pow6(mQ3) + 9*pow6(mU3)) - (28*mQ32*mU32 + 17*pow4(mQ3) +
-         3*pow4(mU3))*pow8(m3) - pow4(m3)*(23*pow4(mQ3)*pow4( mU3) -
-         75*mU32*pow6(mQ3) + 19*mQ32*pow6(mU3) + 29*pow8(mQ3)) + 2*(7* mQ32 +
-         mU32)*power10(m3))) - 2*(lmQ3MR - logQ3m3)*(20*(m32 - mQ32)*(m32 -
-         mU32)*(mQ32 - mU32)*(lmQ3MR - logQ3mq)*pow4(m3)*(7*
-         mQ32*mU32*(pow4(mQ3) + pow4(mU3)) + 3*pow4(m3)*(14*mQ32*mU32 + pow4(
-         mQ3) + pow4(mU3)) - 10*(mQ32 + mU32)*pow6(m3) - m32*(21*mU32*pow4(mQ3)
-         + 21*mQ32*pow4(mU3) + pow6(mQ3) + pow6(mU3)) + 2*pow8(m3)) + (m32 -
-         mQ32)*(m32 - mU32)*(mQ32 - mU32)*(864*pow12(m3) + 48*pow6(mQ3)*pow6(
-         mU3) + 3*m32*mQ32*mU32*(5*(2*msq2 - 23*mU32)*pow4(mQ3) -
-         115*mQ32*pow4( mU3) + 10*msq2*pow4(mU3) + pow6(mQ3) + pow6(mU3)) -
-         9*pow6(m3)*((30* msq2 + 317*mU32)*pow4(mQ3) + 30*msq2*pow4(mU3) +
-         mQ32*(-20*msq2*mU32 + 317*pow4(mU3)) + 39*pow6(mQ3) + 39*pow6(mU3)) +
-         4*(60*msq2*mU32 + 2* mQ32*(30*msq2 + 511*mU32) + 365*pow4(mQ3) +
-         365*pow4(mU3))*pow8(m3) + pow4(m3)*(pow4(mQ3)*(-90*msq2*mU32 +
-         1894*pow4(mU3)) + (90*msq2 + 572* mU32)*pow6(mQ3) + 9*(10*msq2 +
-         mU32)*pow6(mU3) + mQ32*(-90*msq2*pow4( mU3) + 572*pow6(mU3)) +
-         9*pow8(mQ3)) - 2*(971*mQ32 + 90*msq2 + 971* mU32)*power10(m3)) -
-         2*(m32 - mQ32)*(lmQ3MR - logQ3U3)*(-12*(17* mQ32 + 15*mU32)*pow14(m3)
-         + 64*pow16(m3) + 2*pow12(m3)*(302*mQ32*mU32 + 117*pow4(mQ3) +
-         61*pow4(mU3)) + 6*m32*pow4(mQ3)*(-(mQ32*mU32) + 4*pow4( mQ3) -
-         3*pow4(mU3))*pow6(mU3) + mQ32*pow4(m3)*pow4(mU3)*(-53*mU32*pow4( mQ3)
-         + 61*mQ32*pow4(mU3) + 43*pow6(mQ3) + 13*pow6(mU3)) + 6*(-mQ32 +
-         mU32)*pow6(mQ3)*pow8(mU3) - mU32*pow6(m3)*(13*pow4(mQ3)*pow4(mU3) +
-         239*mU32*pow6(mQ3) + 49*mQ32*pow6(mU3) + 76*pow8(mQ3) + 7*pow8(mU3)) +
-         pow8(m3)*(503*pow4(mQ3)*pow4(mU3) + 401*mU32*pow6(mQ3) + 13*mQ32*pow6(
-         mU3) + 13*pow8(mQ3) + 30*pow8(mU3)) - (779*mU32*pow4(mQ3) + 369*mQ32*
-         pow4(mU3) + 101*pow6(mQ3) + 31*pow6(mU3))*power10(m3)) + 2*lmQ3MR*(m32
-         - mU32)*(-12*(15*mQ32 + 17*mU32)*pow14(m3) + 64*pow16(m3) +
-         2*pow12(m3) *(302*mQ32*mU32 + 61*pow4(mQ3) + 117*pow4(mU3)) -
-         6*m32*(mQ32*mU32 + 3* pow4(mQ3) - 4*pow4(mU3))*pow4(mU3)*pow6(mQ3) +
-         mU32*pow4(m3)*pow4(mQ3)* (61*mU32*pow4(mQ3) - 53*mQ32*pow4(mU3) +
-         13*pow6(mQ3) + 43*pow6(mU3)) + 6*(mQ32 - mU32)*pow6(mU3)*pow8(mQ3) +
-         pow8(m3)*(503*pow4(mQ3)*pow4(mU3) + 13*mU32*pow6(mQ3) +
-         401*mQ32*pow6(mU3) + 30*pow8(mQ3) + 13*pow8(mU3)) -
-         mQ32*pow6(m3)*(13*pow4(mQ3)*pow4(mU3) + 49*mU32*pow6(mQ3) + 239*mQ32*
-         pow6(mU3) + 7*pow8(mQ3) + 76*pow8(mU3)) - (369*mU32*pow4(mQ3) + 779*
-         mQ32*pow4(mU3) + 31*pow6(mQ3) + 101*pow6(mU3))*power10(m3))) + 2*(m32
-         - mU32)*dilog(1 - m32/mQ32)*pow2(m32 - mQ32)*(128*pow12(m3) -
-         mU32*pow4( mQ3)*(mU32*pow4(mQ3) + 19*mQ32*pow4(mU3) + 3*pow6(mQ3) -
-         23*pow6(mU3)) + pow6(m3)*(-251*mU32*pow4(mQ3) - 1025*mQ32*pow4(mU3) +
-         9*pow6(mQ3) - 13*pow6(mU3)) + (902*mQ32*mU32 + 98*pow4(mQ3) +
-         280*pow4(mU3))*pow8(m3) + pow4(m3)*(417*pow4(mQ3)*pow4(mU3) -
-         151*mU32*pow6(mQ3) + 391*mQ32* pow6(mU3) + 20*pow8(mQ3) -
-         37*pow8(mU3)) - 2*(147*mQ32 + 173*mU32)* power10(m3) +
-         m32*(41*pow4(mU3)*pow6(mQ3) - 167*pow4(mQ3)*pow6(mU3) +
-         41*mU32*pow8(mQ3) - 34*mQ32*pow8(mU3) - 9*power10(mQ3))) + (m32 -
-         mU32) *pow2(lmQ3MR)*(-4*(139*mQ32 + 85*mU32)*pow14(m3) + 128*pow16(m3)
-         + 2* pow12(m3)*(-30*msq2*mU32 + mQ32*(30*msq2 + 856*mU32) +
-         357*pow4(mQ3) + 131*pow4(mU3)) - (mQ32 -
-         mU32)*mU32*pow4(mQ3)*(21*pow4(mQ3)*pow4(mU3) + 30*pow4(msq)*pow4(mU3)
-         + 4*mU32*pow6(mQ3) + 3*pow8(mQ3)) + pow8(m3)*(-(
-         pow4(mU3)*(180*msq2*mU32 + 270*pow4(msq) + 43*pow4(mU3))) +
-         pow4(mQ3)*( -180*msq2*mU32 + 60*pow4(msq) + 2771*pow4(mU3)) +
-         (-180*msq2 + 933* mU32)*pow6(mQ3) + 3*mQ32*(70*mU32*pow4(msq) +
-         180*msq2*pow4(mU3) + 241* pow6(mU3)) + 96*pow8(mQ3)) + ((120*msq2 -
-         2209*mU32)*pow4(mQ3) - mQ32*( 300*msq2*mU32 + 90*pow4(msq) +
-         1903*pow4(mU3)) - 373*pow6(mQ3) + 5*(18* mU32*pow4(msq) +
-         36*msq2*pow4(mU3) + pow6(mU3)))*power10(m3) - 2*pow6(
-         m3)*(-3*(90*msq2*mU32 + 5*pow4(msq) - 251*pow4(mU3))*pow6(mQ3) + pow4(
-         mQ3)*(105*mU32*pow4(msq) + 90*msq2*pow4(mU3) + 593*pow6(mU3)) - 53*
-         mU32*pow8(mQ3) + 15*mQ32*(3*pow4(msq)*pow4(mU3) + 14*msq2*pow6(mU3) +
-         2*pow8(mU3)) - 15*(9*pow4(msq)*pow6(mU3) + 2*msq2*pow8(mU3)) + 21*
-         power10(mQ3)) + 2*pow4(m3)*(19*pow12(mQ3) - 5*pow6(mQ3)*(9*mU32*pow4(
-         msq) + 54*msq2*pow4(mU3) - 61*pow6(mU3)) + 158*pow4(mU3)*pow8(mQ3) -
-         45*pow4(msq)*pow8(mU3) + 3*pow4(mQ3)*(45*pow4(msq)*pow4(mU3) +
-         70*msq2* pow6(mU3) + 27*pow8(mU3)) + mQ32*(-45*pow4(msq)*pow6(mU3) +
-         60*msq2* pow8(mU3)) - 115*mU32*power10(mQ3)) + m32*(47*mU32*pow12(mQ3)
-         - 9* pow14(mQ3) - 119*pow6(mU3)*pow8(mQ3) +
-         6*pow6(mQ3)*(15*pow4(msq)*pow4( mU3) + 30*msq2*pow6(mU3) -
-         14*pow8(mU3)) + 60*mQ32*pow4(msq)*pow8(mU3) -
-         30*pow4(mQ3)*(5*pow4(msq)*pow6(mU3) + 6*msq2*pow8(mU3)) + 37*pow4(
-         mU3)*power10(mQ3))) - 2*(m32 - mQ32)*dilog(1 - m32/mU32)*pow2(m32 -
-         mU32)*(128*pow12(m3) - pow6(m3)*(1025*mU32*pow4(mQ3) + 251*mQ32*pow4(
-         mU3) + 13*pow6(mQ3) - 9*pow6(mU3)) +
-         mQ32*pow4(mU3)*(-19*mU32*pow4(mQ3) - mQ32*pow4(mU3) + 23*pow6(mQ3) -
-         3*pow6(mU3)) + (902*mQ32*mU32 + 280* pow4(mQ3) +
-         98*pow4(mU3))*pow8(m3) + pow4(m3)*(417*pow4(mQ3)*pow4(mU3) +
-         391*mU32*pow6(mQ3) - 151*mQ32*pow6(mU3) - 37*pow8(mQ3) + 20*pow8(mU3)
-         ) - 2*(173*mQ32 + 147*mU32)*power10(m3) +
-         m32*(-167*pow4(mU3)*pow6(mQ3) + 41*pow4(mQ3)*pow6(mU3) -
-         34*mU32*pow8(mQ3) + 41*mQ32*pow8(mU3) - 9* power10(mU3))) + 2*(m32 -
-         mU32)*(lmQ3MR - logQ3U3)*pow2(m32 -
-         mQ32)*(180*msq2*mU32*pow4(m3)*pow4(mQ3) - 210*mQ32*msq2*pow4(m3)*pow4(
-         mU3) + 150*m32*msq2*pow4(mQ3)*pow4(mU3) + 942*pow4(m3)*pow4(mQ3)*pow4(
-         mU3) - 90*mQ32*msq2*mU32*pow6(m3) - 622*mU32*pow4(mQ3)*pow6(m3) - 985*
-         mQ32*pow4(mU3)*pow6(m3) + 90*msq2*pow4(mU3)*pow6(m3) - 90*m32*msq2*
-         mU32*pow6(mQ3) + 163*mU32*pow4(m3)*pow6(mQ3) - 271*m32*pow4(mU3)*pow6(
-         mQ3) - 30*msq2*pow4(mU3)*pow6(mQ3) + 53*pow6(m3)*pow6(mQ3) - 60*m32*
-         mQ32*msq2*pow6(mU3) + 25*mQ32*pow4(m3)*pow6(mU3) + 30*msq2*pow4(m3)*
-         pow6(mU3) - 246*m32*pow4(mQ3)*pow6(mU3) + 30*msq2*pow4(mQ3)*pow6(mU3)
-         + 18*pow6(m3)*pow6(mU3) + 131*pow6(mQ3)*pow6(mU3) - 10*(mQ32 - mU32)*(
-         lmQ3MR - logQ3mq)*pow2(m32 - mQ32)*(2*(3*msq2 + mU32)*pow4(m3) -
-         3*mU32*pow4(msq) - 3*m32*(-6*msq2*mU32 + 3*pow4(msq) + pow4(mU3)) +
-         pow6(mU3)) + 764*mQ32*mU32*pow8(m3) - 105*pow4(mQ3)*pow8(m3) + 365*
-         pow4(mU3)*pow8(m3) - 9*m32*mU32*pow8(mQ3) - 3*pow4(mU3)*pow8(mQ3) +
-         279*m32*mQ32*pow8(mU3) - 106*pow4(m3)*pow8(mU3) - 125*pow4(mQ3)*pow8(
-         mU3) + 52*mQ32*power10(m3) - 308*mU32*power10(m3) - 9*m32*power10(mU3)
-         - 3*mQ32*power10(mU3)))))/(3.*mQ32*mU32*pow4(m32 - mQ32)*pow4(m32 -
-         mU32)*pow4(mQ32 - mU32))+ (-32*Xt5*(32*pow2(m32 - mQ32)*pow2(m32 -
-         mU32)*(m3*(m32 - mQ32)*mU32* logQ3U3 + (mQ32 -
-         mU32)*logQ3m3*pow3(m3))*(mQ32*(mQ32 - mU32)* mU32*(-2*m32 + mQ32 +
-         mU32)*dilog(1 - m32/mQ32) + m32*mU32*pow4(mQ3) -
-         lmQ3MR*m32*mU32*pow4(mQ3) + m32*mU32*logQ3m3*pow4(mQ3) + 2*m32*
-         mU32*logQ3U3*pow4(mQ3) - 2*lmQ3MR*m32*mU32*logQ3U3*pow4( mQ3) +
-         m32*mU32*pow2(logQ3U3)*pow4(mQ3) + m32*mQ32*pow4(mU3) -
-         lmQ3MR*m32*mQ32*pow4(mU3) + m32*mQ32*logQ3m3*pow4(mU3) - 2*m32*
-         mQ32*logQ3U3*pow4(mU3) + 2*lmQ3MR*m32*mQ32*logQ3U3*pow4( mU3) -
-         m32*mQ32*pow2(logQ3U3)*pow4(mU3) + 12*pow4(mQ3)*pow4(mU3) -
-         8*lmQ3MR*pow4(mQ3)*pow4(mU3) + 4*logQ3U3*pow4(mQ3)*pow4(mU3) -
-         2*pow2(logQ3U3)*pow4(mQ3)*pow4(mU3) + mQ32*mU32*dilog(1 - m32/
-         mU32)*(2*m32*(mQ32 - mU32) - pow4(mQ3) + pow4(mU3)) - m32*pow6(mQ3) +
-         lmQ3MR*m32*pow6(mQ3) - 6*mU32*pow6(mQ3) + 4*lmQ3MR*mU32*pow6(mQ3) -
-         m32*logQ3m3*pow6(mQ3) + 3*mU32*logQ3U3*pow6(mQ3) - 2*
-         lmQ3MR*mU32*logQ3U3*pow6(mQ3) - m32*pow6(mU3) + lmQ3MR*m32*pow6( mU3)
-         - 6*mQ32*pow6(mU3) + 4*lmQ3MR*mQ32*pow6(mU3) - m32*logQ3m3* pow6(mU3)
-         - 7*mQ32*logQ3U3*pow6(mU3) + 2*lmQ3MR*mQ32*logQ3U3*pow6(mU3) -
-         2*mQ32*pow2(logQ3U3)*pow6(mU3)) - mQ32*mU32*( 2*(mQ32 - mU32) - (mQ32
-         + mU32)*logQ3U3)*(-60*m3*(m32 - mQ32)*( m32 - msq2)*(m32 -
-         mU32)*(mQ32*(msq2 - 2*mU32) + msq2*mU32 + m32*(mQ32 - 2*msq2 +
-         mU32))*dilog(1 - m32/msq2)*pow2(mQ32 - mU32) - 60*m3*msq2*( lmQ3MR -
-         logQ3mq)*pow2(m32 - mQ32)*pow2(m32 - mU32)*pow2(mQ32 - mU32) -
-         30*m3*(m32 - mQ32)*(m32 - mU32)*(mQ32 - mU32)*(pow2(mQ32 -
-         msq2)*pow2(m32 - mU32) - pow2(m32 - mQ32)*pow2(msq2 - mU32))*pow2(
-         lmQ3MR - logQ3mq) + 2*pow2(m32 - mQ32)*pow2(m32 - mU32)*pow2( mQ32 -
-         mU32)*(-3*m3*(mQ32 + 10*msq2 + mU32) + 14*pow3(m3)) + 60*m3*(m32 -
-         mU32)*(mQ32 - mU32)*dilog(1 - msq2/mU32)*pow2(msq2 - mU32)*pow3(m32 -
-         mQ32) - 60*m3*(m32 - mQ32)*(mQ32 - mU32)*dilog(1 -
-         msq2/mQ32)*pow2(mQ32 - msq2)*pow3(m32 - mU32) + 2*m3*(m32 - mQ32)*(m32
-         - mU32)*dilog(1 - mQ32/mU32)*pow3(mQ32 - mU32)*(-(mQ32*mU32) -
-         5*m32*(mQ32 + mU32) + 5* pow4(m3) + 3*pow4(mQ3) + 3*pow4(mU3)) -
-         2*m3*(m32 - mQ32)*(mQ32 - mU32) *dilog(1 - m32/mU32)*pow3(m32 -
-         mU32)*(-7*mQ32*mU32 + m32*(-37*mQ32 + mU32) + 18*pow4(m3) +
-         22*pow4(mQ3) + 3*pow4(mU3)) + 2*m3*(m32 - mU32)*( mQ32 - mU32)*dilog(1
-         - m32/mQ32)*pow3(m32 - mQ32)*(m32*(mQ32 - 37*mU32) - 7*mQ32*mU32 +
-         18*pow4(m3) + 3*pow4(mQ3) + 22*pow4(mU3)) + 12*m3*(mQ32 -
-         mU32)*(m32*(mQ32 - mU32)*logQ3m3 + (m32 - mQ32)*mU32*logQ3U3)*(-((m32
-         - mQ32)*((m32 - mQ32)*(2*m32 - mU32)*mU32*logQ3U3 + (m32 - mU32)*((1 +
-         2*lmQ3MR)*mQ32*mU32 - 2*lmQ3MR*m32*(mQ32 + mU32) + (-1 +
-         2*lmQ3MR)*pow4(m3)))) + logQ3m3*pow4(m3)*(-2*m32*(mQ32 + mU32) +
-         2*pow4(m3) + pow4(mQ3) + pow4(mU3))) - 2*m3*(m32 - mU32)*(mQ32 -
-         mU32)*(lmQ3MR - logQ3U3)*pow2(m32 - mQ32)*(-53*m32*mQ32*mU32 -
-         30*m32*msq2*mU32 + 30*mQ32*msq2*mU32 - 16*mQ32*pow4(m3) +
-         55*mU32*pow4( m3) + 3*mU32*pow4(mQ3) - 61*m32*pow4(mU3) +
-         53*mQ32*pow4(mU3) + 5*(m32 - mQ32)*(lmQ3MR - logQ3mq)*(-(m32*mU32) -
-         12*msq2*mU32 + 6*pow4( msq) + pow4(mU3)) + 16*pow6(m3) + 3*pow6(mU3))
-         - pow2(lmQ3MR - logQ3U3)* pow3(m32 - mQ32)*(-((69*mQ32*mU32 +
-         pow4(mQ3) - 86*pow4( mU3))*pow5(m3)) + pow3(m3)*(11*mU32*pow4(mQ3) +
-         30*mU32*pow4(msq) - 60* msq2*pow4(mU3) + mQ32*(60*msq2*mU32 -
-         30*pow4(msq) + 59*pow4(mU3)) - 3* pow6(mQ3) - 99*pow6(mU3)) +
-         m3*mU32*(-10*mU32*pow4(mQ3) - 30*mU32*pow4( msq) + mQ32*(-60*msq2*mU32
-         + 30*pow4(msq) - 4*pow4(mU3)) + 60*msq2* pow4(mU3) + 3*pow6(mQ3) +
-         27*pow6(mU3)) + 18*(mQ32 - mU32)*pow7(m3)) + 2*pow2(mQ32 -
-         mU32)*pow2(lmQ3MR - logQ3m3)*pow3(m3)*(-142*m32* mQ32*mU32*(mQ32 +
-         mU32) + 87*pow4(mQ3)*pow4(mU3) + pow4(m3)*(220*mQ32* mU32 +
-         57*pow4(mQ3) + 57*pow4(mU3)) - 82*(mQ32 + mU32)*pow6(m3) + 27*
-         pow8(m3)) - (mQ32 - mU32)*(lmQ3MR - logQ3m3)*(2*(m32 - mQ32)*(m32 -
-         mU32)*(mQ32 - mU32)*pow3(m3)*(3*mU32*(10*msq2 + mU32) - 15*m32*(5*
-         mQ32 + 4*msq2 + 5*mU32) + mQ32*(30*msq2 + 59*mU32) + 85*pow4(m3) + 3*
-         pow4(mQ3)) - 10*(m32 - mQ32)*(m32 - mU32)*(mQ32 - mU32)*(lmQ3MR -
-         logQ3mq)*(-11*mQ32*mU32*pow3(m3) + 5*(mQ32 + mU32)*pow5(m3) + pow7(
-         m3)) + lmQ3MR*(m32 - mU32)*(68*pow11(m3) + 12*m3*pow4(mU3)*pow6(mQ3) +
-         pow5(m3)*(-215*mU32*pow4(mQ3) - 184*mQ32*pow4(mU3) + 3*pow6(mQ3)) +
-         pow3(m3)*(105*pow4(mQ3)*pow4(mU3) - 17*mU32*pow6(mQ3)) +
-         (353*mQ32*mU32 + 120*pow4(mQ3) + 75*pow4(mU3))*pow7(m3) - (183*mQ32 +
-         137*mU32)*pow9( m3)) - (m32 - mQ32)*(lmQ3MR - logQ3U3)*(68*pow11(m3) +
-         12*m3* pow4(mQ3)*pow6(mU3) + pow5(m3)*(-184*mU32*pow4(mQ3) -
-         215*mQ32*pow4( mU3) + 3*pow6(mU3)) + pow3(m3)*(105*pow4(mQ3)*pow4(mU3)
-         - 17*mQ32*pow6( mU3)) + (353*mQ32*mU32 + 75*pow4(mQ3) +
-         120*pow4(mU3))*pow7(m3) - (137* mQ32 + 183*mU32)*pow9(m3))) - (m32 -
-         mU32)*pow2(lmQ3MR)*(-18*(mQ32 - mU32)*pow11(m3) - 2*((30*msq2 +
-         49*mU32)*pow4(mQ3) + 15*mU32*pow4(msq) - mQ32*(30*msq2*mU32 +
-         15*pow4(msq) + 58*pow4(mU3)) + 52*pow6(mQ3) - 11*pow6(mU3))*pow7(m3) +
-         pow5(m3)*(60*pow4(msq)*pow4(mU3) - 3*pow4(mQ3) *(-20*msq2*mU32 +
-         10*pow4(msq) + 9*pow4(mU3)) + (60*msq2 + 169*mU32)* pow6(mQ3) -
-         mQ32*(30*mU32*pow4(msq) + 120*msq2*pow4(mU3) + 83*pow6(mU3) ) +
-         37*pow8(mQ3)) + (-33*mQ32*mU32 + 86*pow4(mQ3) - 37*pow4(mU3))*pow9(
-         m3) + m3*mQ32*(-30*mQ32*msq2*(msq2 + 2*mU32)*pow4(mU3) + 42*pow4(mU3)*
-         pow6(mQ3) + pow4(mQ3)*(60*msq2*pow4(mU3) - 19*pow6(mU3)) +
-         30*pow4(msq) *pow6(mU3) - 10*mU32*pow8(mQ3) + 3*power10(mQ3)) -
-         2*pow3(m3)*(15*mQ32* msq2*(msq2 - 2*mU32)*pow4(mU3) + (60*msq2*mU32 +
-         53*pow4(mU3))*pow6( mQ3) + 15*pow4(msq)*pow6(mU3) -
-         6*pow4(mQ3)*(5*mU32*pow4(msq) + 5*msq2* pow4(mU3) + 7*pow6(mU3)) +
-         17*mU32*pow8(mQ3) + 4*power10(mQ3))) + lmQ3MR*(m32 - mQ32)*(m32 -
-         mU32)*(-10*m3*(mQ32 - mU32)*(lmQ3MR - logQ3mq)*pow2(m32 -
-         mU32)*(m32*mQ32 + 12*mQ32*msq2 - pow4(mQ3) - 6* pow4(msq)) + 2*(m32 -
-         mU32)*(mQ32 - mU32)*(-(mQ32*(61*mQ32 + 30*msq2 + 53*mU32)*pow3(m3)) +
-         m3*mQ32*(53*mQ32*mU32 + 30*msq2*mU32 + 3*pow4(mQ3) + 3*pow4(mU3)) +
-         (55*mQ32 - 16*mU32)*pow5(m3) + 16*pow7(m3)) - m3*( lmQ3MR -
-         logQ3U3)*((-34*mQ32*mU32 + pow4(mQ3) + pow4(mU3))*pow6( m3) +
-         38*pow4(mU3)*pow6(mQ3) + pow4(m3)*(29*mU32*pow4(mQ3) + 59*mQ32*
-         pow4(mU3) + 9*pow6(mQ3) - pow6(mU3)) + 8*pow4(mQ3)*pow6(mU3) -
-         20*mU32* pow8(mQ3) - m32*(88*pow4(mQ3)*pow4(mU3) - 11*mU32*pow6(mQ3) +
-         9*mQ32* pow6(mU3) + 10*pow8(mQ3)) +
-         6*power10(mQ3))))))/(3.*mQ32*mU32*pow3(m32 - mQ32)*pow3(m32 -
-         mU32)*pow5(mQ32 - mU32))+ (1280*Xt6*(-2*mQ32 + 2*mU32 + (mQ32 +
-         mU32)*logQ3U3)*pow2(m3*(m32 - mQ32)*mU32*logQ3U3 + (mQ32 -
-         mU32)*logQ3m3*pow3(m3)))/( 3.*pow2(m32 - mQ32)*pow2(m32 -
-         mU32)*pow5(mQ32 - mU32));
-      }
+   // coefficients of the powers of Xt/scale
+   using Poly = Eigen::VectorXd;
 
-      case Limits::MQ3_EQ_MU3: {
-         const double logQ3m3 = std::log(mQ32/m32);
-         const double logQ3mq = std::log(mQ32/msq2);
-         const double logmqQ3 = -logQ3mq;
-         const double logm3Q3 = -logQ3m3;
-
-         return
-         (2*Xt4*(120*(m32 - mQ32)*mQ32*(m32 - msq2)*dilog(1 -
-         m32/msq2)*(mQ32*msq2 + m32*(-5*mQ32 + 3*msq2) + pow4(m3)) +
-         600*msq2*pow4(m3)*pow4(mQ3) + 480*msq2*dilog(1 -
-         msq2/mQ32)*pow4(m3)*pow4(mQ3) + 240*msq2*logQ3m3*pow4(m3)*pow4(mQ3) -
-         600*msq2*logQ3mq*pow4(m3)*pow4(mQ3) +
-         240*msq2*pow2(logQ3mq)*pow4(m3)*pow4(mQ3) + 8*dilog(1 - m32/
-         mQ32)*pow2(-(m32*mQ3) + pow3(mQ3))*(-20*m32*mQ32 - 19*pow4(m3) + 15*
-         pow4(mQ3)) - 360*mQ32*dilog(1 - msq2/mQ32)*pow4(m3)*pow4(msq) - 180*
-         mQ32*pow2(logQ3mq)*pow4(m3)*pow4(msq) + 240*m32*dilog(1 - msq2/
-         mQ32)*pow4(mQ3)*pow4(msq) + 120*m32*pow2(logQ3mq)*pow4(mQ3)* pow4(msq)
-         - 360*mQ32*msq2*pow6(m3) + 240*mQ32*msq2*dilog(1 - msq2/mQ32)
-         *pow6(m3) - 360*mQ32*msq2*logQ3m3*pow6(m3) +
-         360*mQ32*msq2*logQ3mq*pow6(m3) + 120*mQ32*msq2*pow2(logQ3mq)*pow6(m3)
-         - 10684*pow4(mQ3)*pow6(m3) + 13512*lmQ3MR*pow4(mQ3)*pow6(m3) -
-         240*dilog( 1 - msq2/mQ32)*pow4(mQ3)*pow6(m3) +
-         19228*logm3Q3*pow4(mQ3)*pow6( m3) +
-         11312*lmQ3MR*logm3Q3*pow4(mQ3)*pow6(m3) - 524*logQ3m3
-         *pow4(mQ3)*pow6(m3) + 18144*lmQ3MR*logQ3m3*pow4(mQ3)*pow6(m3) +
-         24360*logm3Q3*logQ3m3*pow4(mQ3)*pow6(m3) -
-         1680*logQ3mq*pow4(mQ3)*pow6(m3) +
-         480*lmQ3MR*logQ3mq*pow4(mQ3)*pow6(m3) -
-         2020*logm3Q3*logQ3mq*pow4(mQ3)*pow6(m3) -
-         1700*logQ3m3*logQ3mq*pow4(mQ3)*pow6(m3) - 4688*pow2(lmQ3MR)*pow4(mQ3)*
-         pow6(m3) + 16672*pow2(logQ3m3)*pow4(mQ3)*pow6(m3) -
-         120*pow2(logQ3mq)*pow4(mQ3)*pow6(m3) - 120*m32*msq2*pow6(mQ3) -
-         720*m32*msq2* dilog(1 - msq2/mQ32)*pow6(mQ3) +
-         120*m32*msq2*logQ3m3*pow6(mQ3) + 120*m32*msq2*logQ3mq*pow6(mQ3) -
-         360*m32*msq2*pow2(logQ3mq)*pow6(mQ3) + 14474*pow4(m3)*pow6(mQ3) -
-         14104*lmQ3MR*pow4(m3)* pow6(mQ3) - 120*dilog(1 -
-         msq2/mQ32)*pow4(m3)*pow6(mQ3) - 13712*logm3Q3*pow4(m3)*pow6(mQ3) -
-         8064*lmQ3MR*logm3Q3*pow4(m3)*pow6( mQ3) +
-         2504*logQ3m3*pow4(m3)*pow6(mQ3) -
-         11240*lmQ3MR*logQ3m3*pow4(m3)*pow6(mQ3) +
-         1728*logm3Q3*logQ3m3*pow4(m3)* pow6(mQ3) +
-         2000*logQ3mq*pow4(m3)*pow6(mQ3) -
-         320*lmQ3MR*logQ3mq*pow4(m3)*pow6(mQ3) + 1440*logm3Q3*logQ3mq*pow4(
-         m3)*pow6(mQ3) + 1000*logQ3m3*logQ3mq*pow4(m3)*pow6(mQ3) +
-         4792*pow2(lmQ3MR)*pow4(m3)*pow6(mQ3) + 2548*pow2(logQ3m3)*pow4(
-         m3)*pow6(mQ3) - 60*pow2(logQ3mq)*pow4(m3)*pow6(mQ3) + 120*dilog( 1 -
-         msq2/mQ32)*pow4(msq)*pow6(mQ3) + 60*pow2(logQ3mq)*pow4(msq)* pow6(mQ3)
-         + 2463*mQ32*pow8(m3) - 5440*lmQ3MR*mQ32*pow8(m3) - 5680*mQ32*
-         logm3Q3*pow8(m3) - 7168*lmQ3MR*mQ32*logm3Q3*pow8(m3) - 248*
-         mQ32*logQ3m3*pow8(m3) - 11720*lmQ3MR*mQ32*logQ3m3*pow8(m3) -
-         21312*mQ32*logm3Q3*logQ3m3*pow8(m3) + 640*mQ32*logQ3mq*pow8(m3) -
-         320*lmQ3MR*mQ32*logQ3mq*pow8(m3) + 1280*mQ32* logm3Q3*logQ3mq*pow8(m3)
-         + 1480*mQ32*logQ3m3*logQ3mq*pow8(m3) + 2292*mQ32*pow2(lmQ3MR)*pow8(m3)
-         - 18996*mQ32* pow2(logQ3m3)*pow8(m3) - 5868*m32*pow8(mQ3) +
-         6312*lmQ3MR*m32* pow8(mQ3) - 120*msq2*pow8(mQ3) + 480*m32*dilog(1 -
-         msq2/mQ32)*pow8(mQ3) - 630*m32*logm3Q3*pow8(mQ3) +
-         2184*lmQ3MR*m32*logm3Q3*pow8( mQ3) - 2142*m32*logQ3m3*pow8(mQ3) +
-         2280*lmQ3MR*m32*logQ3m3 *pow8(mQ3) - 468*m32*logm3Q3*logQ3m3*pow8(mQ3)
-         - 1120*m32* logQ3mq*pow8(mQ3) + 80*lmQ3MR*m32*logQ3mq*pow8(mQ3) +
-         120*msq2*logQ3mq*pow8(mQ3) - 390*m32*logm3Q3*logQ3mq*pow8(mQ3) -
-         390*m32*logQ3m3*logQ3mq*pow8(mQ3) - 2448*m32*pow2(lmQ3MR)*pow8(mQ3) -
-         180*m32*pow2(logQ3m3)*pow8(mQ3) + 240*m32*pow2(logQ3mq)*pow8(mQ3) -
-         176*power10(m3) + 624* lmQ3MR*power10(m3) + 794*logm3Q3*power10(m3) +
-         1736*lmQ3MR*logm3Q3*power10(m3) + 266*logQ3m3*power10(m3) +
-         2536*lmQ3MR* logQ3m3*power10(m3) + 6572*logm3Q3*logQ3m3*power10( m3) -
-         80*logQ3mq*power10(m3) + 80*lmQ3MR*logQ3mq*power10( m3) -
-         310*logm3Q3*logQ3mq*power10(m3) - 390*logQ3m3* logQ3mq*power10(m3) -
-         448*pow2(lmQ3MR)*power10(m3) + 6220*pow2( logQ3m3)*power10(m3) -
-         209*power10(mQ3) - 904*lmQ3MR*power10(mQ3) - 120*dilog(1 -
-         msq2/mQ32)*power10(mQ3) + 144*logQ3m3*power10( mQ3) +
-         240*logQ3mq*power10(mQ3) + 500*pow2(lmQ3MR)*power10(mQ3) -
-         72*pow2(logQ3m3)*power10(mQ3) - 60*pow2(logQ3mq)*
-         power10(mQ3)))/(9.*pow4(m32 - mQ32)*pow6(mQ3))+
-         (-32*m3*Xt5*(60*mQ32*(-m32 + mQ32)*(m32 - msq2)*(mQ32 - msq2)*dilog(1
-         - m32/msq2) + 2*mQ32*dilog(1 - m32/mQ32)*pow3(m32 - mQ32) -
-         60*mQ32*msq2* pow4(m3) + 60*mQ32*msq2*dilog(1 - msq2/mQ32)*pow4(m3) -
-         60*mQ32*msq2* logQ3m3*pow4(m3) + 90*mQ32*msq2*logQ3mq*pow4(m3) + 30*
-         mQ32*msq2*logmqQ3*pow4(m3) + 30*mQ32*msq2*pow2(logQ3mq)* pow4(m3) +
-         120*m32*msq2*pow4(mQ3) + 60*m32*msq2*logQ3m3*pow4(mQ3) -
-         180*m32*msq2*logQ3mq*pow4(mQ3) - 60*m32*msq2*logmqQ3* pow4(mQ3) -
-         345*pow4(m3)*pow4(mQ3) + 274*lmQ3MR*pow4(m3)*pow4(mQ3) - 60*dilog(1 -
-         msq2/mQ32)*pow4(m3)*pow4(mQ3) - 342*logm3Q3*pow4(m3) *pow4(mQ3) -
-         538*logQ3m3*pow4(m3)*pow4(mQ3) + 220*lmQ3MR*logQ3m3*pow4(m3)*pow4(mQ3)
-         - 492*logm3Q3*logQ3m3*pow4(m3) *pow4(mQ3) -
-         15*logQ3mq*pow4(m3)*pow4(mQ3) + 50*logQ3m3* logQ3mq*pow4(m3)*pow4(mQ3)
-         - 602*pow2(logQ3m3)*pow4(m3)* pow4(mQ3) -
-         30*pow2(logQ3mq)*pow4(m3)*pow4(mQ3) - 60*m32*mQ32* dilog(1 -
-         msq2/mQ32)*pow4(msq) + 60*m32*mQ32*logQ3mq*pow4(msq) +
-         60*m32*mQ32*logmqQ3*pow4(msq) - 30*m32*mQ32*pow2(logQ3mq) *pow4(msq) -
-         30*logQ3mq*pow4(m3)*pow4(msq) - 30*logmqQ3* pow4(m3)*pow4(msq) +
-         60*dilog(1 - msq2/mQ32)*pow4(mQ3)*pow4(msq) - 30*
-         logQ3mq*pow4(mQ3)*pow4(msq) - 30*logmqQ3*pow4(mQ3)*pow4( msq) +
-         30*pow2(logQ3mq)*pow4(mQ3)*pow4(msq) + 163*mQ32*pow6(m3) -
-         122*lmQ3MR*mQ32*pow6(m3) + 70*mQ32*logm3Q3*pow6(m3) + 277*mQ32*
-         logQ3m3*pow6(m3) - 156*lmQ3MR*mQ32*logQ3m3*pow6(m3) + 408*
-         mQ32*logm3Q3*logQ3m3*pow6(m3) + 5*mQ32*logQ3mq*pow6( m3) +
-         5*mQ32*logQ3m3*logQ3mq*pow6(m3) + 495*mQ32*pow2(logQ3m3)*pow6(m3) +
-         265*m32*pow6(mQ3) - 246*lmQ3MR*m32*pow6(mQ3) - 60*msq2*pow6(mQ3) +
-         60*m32*dilog(1 - msq2/mQ32)*pow6(mQ3) - 60*msq2* dilog(1 -
-         msq2/mQ32)*pow6(mQ3) + 274*m32*logm3Q3*pow6(mQ3) + 317*
-         m32*logQ3m3*pow6(mQ3) - 96*lmQ3MR*m32*logQ3m3*pow6(mQ3) +
-         15*m32*logQ3mq*pow6(mQ3) + 90*msq2*logQ3mq*pow6(mQ3) -
-         55*m32*logQ3m3*logQ3mq*pow6(mQ3) + 30*msq2*logmqQ3* pow6(mQ3) +
-         87*m32*pow2(logQ3m3)*pow6(mQ3) + 30*m32*pow2(logQ3mq)*pow6(mQ3) -
-         30*msq2*pow2(logQ3mq)*pow6(mQ3) - 16* pow8(m3) + 16*lmQ3MR*pow8(m3) -
-         2*logm3Q3*pow8(m3) - 50*logQ3m3*pow8(m3) + 32*lmQ3MR*logQ3m3*pow8(m3)
-         - 124*logm3Q3* logQ3m3*pow8(m3) - 156*pow2(logQ3m3)*pow8(m3) -
-         67*pow8( mQ3) + 78*lmQ3MR*pow8(mQ3) - 6*logQ3m3*pow8(mQ3) -
-         5*logQ3mq*pow8(mQ3)))/(9.*pow4(m32 - mQ32)*pow6(mQ3))+
-         (640*Xt6*pow2(-(m3*mQ32) + pow3(m3) + logQ3m3*pow3(m3)))/(9.*pow4(-
-         (m32*mQ3) + pow3(mQ3)));
-      }
+   const auto mul = [] (const Poly& a, const Poly& b) {
+      Poly c = Poly::Zero(a.size() + b.size() - 1);
+      for (Poly::Index i = 0; i < a.size(); i++)
+         c.segment(i, b.size()) += a(i)*b;
+      return c;
+   };
 
-      case Limits::MQ3_EQ_M3: {
-         const double logQ3U3 = std::log(mQ32/mU32);
-         const double logQ3mq = std::log(mQ32/msq2);
-
-         return
-         -(Xt4*(122320*msq2*mU32*pow14(mQ3) - 6560*lmQ3MR*msq2*mU32*pow14(mQ3)
-         + 40992*msq2*mU32*dilog(1 - mQ32/mU32)*pow14(mQ3) - 5376*lmQ3MR*msq2*
-         mU32*dilog(1 - mQ32/mU32)*pow14(mQ3) + 5760*msq2*mU32*dilog(1 - msq2/
-         mU32)*pow14(mQ3) - 5280*msq2*mU32*logQ3mq*pow14(mQ3) - 3840*
-         lmQ3MR*msq2*mU32*logQ3mq*pow14(mQ3) + 960*msq2*mU32*dilog(1 -
-         mQ32/mU32)*logQ3mq*pow14(mQ3) - 45464*msq2*mU32*logQ3U3* pow14(mQ3) -
-         26288*lmQ3MR*msq2*mU32*logQ3U3*pow14(mQ3) - 8208* msq2*mU32*dilog(1 -
-         mQ32/mU32)*logQ3U3*pow14(mQ3) - 2880*msq2* mU32*dilog(1 -
-         msq2/mU32)*logQ3U3*pow14(mQ3) + 720*msq2*mU32*
-         logQ3mq*logQ3U3*pow14(mQ3) -
-         1920*lmQ3MR*msq2*mU32*logQ3mq*logQ3U3*pow14(mQ3) + 192*msq2*pow16(mQ3)
-         + 5184* lmQ3MR*msq2*pow16(mQ3) - 130960*mU32*pow16(mQ3) +
-         6560*lmQ3MR*mU32* pow16(mQ3) - 40992*mU32*dilog(1 -
-         mQ32/mU32)*pow16(mQ3) + 5376*lmQ3MR* mU32*dilog(1 -
-         mQ32/mU32)*pow16(mQ3) - 960*msq2*logQ3mq*pow16( mQ3) +
-         960*lmQ3MR*msq2*logQ3mq*pow16(mQ3) + 12000*mU32*logQ3mq*pow16(mQ3) +
-         3840*lmQ3MR*mU32*logQ3mq*pow16(mQ3) - 960* mU32*dilog(1 -
-         mQ32/mU32)*logQ3mq*pow16(mQ3) - 96*msq2*logQ3U3*pow16(mQ3) +
-         96*lmQ3MR*msq2*logQ3U3*pow16(mQ3) + 49784* mU32*logQ3U3*pow16(mQ3) +
-         26288*lmQ3MR*mU32*logQ3U3* pow16(mQ3) + 8208*mU32*dilog(1 -
-         mQ32/mU32)*logQ3U3*pow16(mQ3) - 9840*mU32*logQ3mq*logQ3U3*pow16(mQ3) +
-         1920*lmQ3MR*mU32* logQ3mq*logQ3U3*pow16(mQ3) - 192*pow18(mQ3) - 5184*
-         lmQ3MR*pow18(mQ3) + 960*logQ3mq*pow18(mQ3) -
-         960*lmQ3MR*logQ3mq*pow18(mQ3) + 96*logQ3U3*pow18(mQ3) -
-         96*lmQ3MR*logQ3U3*pow18(mQ3) - 2496*msq2*mU32*pow14(mQ3)*pow2(lmQ3MR)
-         + 22752* msq2*mU32*logQ3U3*pow14(mQ3)*pow2(lmQ3MR) -
-         5376*msq2*pow16(mQ3) *pow2(lmQ3MR) + 2496*mU32*pow16(mQ3)*pow2(lmQ3MR)
-         - 22752*mU32*logQ3U3*pow16(mQ3)*pow2(lmQ3MR) +
-         5376*pow18(mQ3)*pow2(lmQ3MR) + 3330*msq2*mU32*pow14(mQ3)*pow2(logQ3mq)
-         - 1665*msq2*mU32*logQ3U3*pow14(mQ3)*pow2(logQ3mq) -
-         270*mU32*pow16(mQ3)*pow2( logQ3mq) +
-         135*mU32*logQ3U3*pow16(mQ3)*pow2(logQ3mq) +
-         21480*msq2*mU32*pow14(mQ3)*pow2(logQ3U3) - 2496*lmQ3MR*
-         msq2*mU32*pow14(mQ3)*pow2(logQ3U3) +
-         3840*msq2*mU32*logQ3mq*pow14(mQ3)*pow2(logQ3U3) -
-         18600*mU32*pow16(mQ3)*pow2(logQ3U3) +
-         2496*lmQ3MR*mU32*pow16(mQ3)*pow2(logQ3U3) - 960*
-         mU32*logQ3mq*pow16(mQ3)*pow2(logQ3U3) - 5640*msq2*mU32*
-         pow14(mQ3)*pow3(logQ3U3) + 4200*mU32*pow16(mQ3)*pow3(logQ3U3) -
-         29968*msq2*pow12(mU3)*pow4(mQ3) - 58720*lmQ3MR*msq2*pow12(mU3)
-         *pow4(mQ3) + 3936*msq2*dilog(1 - mQ32/mU32)*pow12(mU3)*pow4(mQ3) +
-         5376*lmQ3MR*msq2*dilog(1 - mQ32/mU32)*pow12(mU3)*pow4(mQ3) -
-         2880*msq2* dilog(1 - msq2/mU32)*pow12(mU3)*pow4(mQ3) +
-         17760*msq2*logQ3mq* pow12(mU3)*pow4(mQ3) -
-         960*lmQ3MR*msq2*logQ3mq*pow12(mU3)*pow4( mQ3) - 960*msq2*dilog(1 -
-         mQ32/mU32)*logQ3mq*pow12(mU3)*pow4( mQ3) +
-         520*msq2*logQ3U3*pow12(mU3)*pow4(mQ3) - 63920*lmQ3MR*
-         msq2*logQ3U3*pow12(mU3)*pow4(mQ3) - 528*msq2*dilog(1 - mQ32/
-         mU32)*logQ3U3*pow12(mU3)*pow4(mQ3) - 1440*msq2*dilog(1 - msq2/
-         mU32)*logQ3U3*pow12(mU3)*pow4(mQ3) + 13200*msq2*logQ3mq*
-         logQ3U3*pow12(mU3)*pow4(mQ3) + 29376*msq2*pow12(mU3)*pow2(
-         lmQ3MR)*pow4(mQ3) + 12000*msq2*logQ3U3*pow12(mU3)*pow2(lmQ3MR)*
-         pow4(mQ3) - 1890*msq2*pow12(mU3)*pow2(logQ3mq)*pow4(mQ3) - 945*
-         msq2*logQ3U3*pow12(mU3)*pow2(logQ3mq)*pow4(mQ3) + 14616*
-         msq2*pow12(mU3)*pow2(logQ3U3)*pow4(mQ3) - 17376*lmQ3MR*msq2*
-         pow12(mU3)*pow2(logQ3U3)*pow4(mQ3) + 2400*msq2*logQ3mq*
-         pow12(mU3)*pow2(logQ3U3)*pow4(mQ3) + 4056*msq2*pow12(mU3)*pow3(
-         logQ3U3)*pow4(mQ3) + 8640*mU32*pow12(mQ3)*pow4(msq) - 14400*
-         mU32*dilog(1 - msq2/mU32)*pow12(mQ3)*pow4(msq) -
-         8640*mU32*logQ3mq*pow12(mQ3)*pow4(msq) -
-         4320*mU32*logQ3U3*pow12(mQ3)*pow4( msq) + 7200*mU32*dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mQ3)*pow4( msq) +
-         18720*mU32*logQ3mq*logQ3U3*pow12(mQ3)*pow4(msq) -
-         7290*mU32*pow12(mQ3)*pow2(logQ3mq)*pow4(msq) +
-         3645*mU32*logQ3U3*pow12(mQ3)*pow2(logQ3mq)*pow4(msq) + 90*mQ32*pow12(
-         mU3)*pow2(logQ3mq)*pow4(msq) + 45*mQ32*logQ3U3*pow12(mU3)
-         *pow2(logQ3mq)*pow4(msq) -
-         7200*mU32*pow12(mQ3)*pow2(logQ3U3)*pow4(msq) -
-         7200*mU32*logQ3mq*pow12(mQ3)*pow2(logQ3U3)*pow4(msq) +
-         3600*mU32*pow12(mQ3)*pow3(logQ3U3)*pow4(msq) -
-         536144*msq2*pow12(mQ3)*pow4(mU3) - 85088*lmQ3MR*msq2*pow12(mQ3)*pow4(
-         mU3) - 155424*msq2*dilog(1 - mQ32/mU32)*pow12(mQ3)*pow4(mU3) + 26880*
-         lmQ3MR*msq2*dilog(1 - mQ32/mU32)*pow12(mQ3)*pow4(mU3) + 11520*msq2*
-         dilog(1 - msq2/mU32)*pow12(mQ3)*pow4(mU3) + 60000*msq2*logQ3mq*
-         pow12(mQ3)*pow4(mU3) + 4800*lmQ3MR*msq2*logQ3mq*pow12(mQ3)*pow4( mU3)
-         - 4800*msq2*dilog(1 - mQ32/mU32)*logQ3mq*pow12(mQ3)*pow4( mU3) +
-         13032*msq2*logQ3U3*pow12(mQ3)*pow4(mU3) + 119760*lmQ3MR*
-         msq2*logQ3U3*pow12(mQ3)*pow4(mU3) - 14928*msq2*dilog(1 - mQ32/
-         mU32)*logQ3U3*pow12(mQ3)*pow4(mU3) - 11520*msq2*dilog(1 - msq2/
-         mU32)*logQ3U3*pow12(mQ3)*pow4(mU3) - 30960*msq2*logQ3mq*
-         logQ3U3*pow12(mQ3)*pow4(mU3) + 7680*lmQ3MR*msq2*logQ3mq*
-         logQ3U3*pow12(mQ3)*pow4(mU3) + 559184*pow14(mQ3)*pow4(mU3) +
-         85088*lmQ3MR*pow14(mQ3)*pow4(mU3) + 155424*dilog(1 - mQ32/mU32)*pow14(
-         mQ3)*pow4(mU3) - 26880*lmQ3MR*dilog(1 -
-         mQ32/mU32)*pow14(mQ3)*pow4(mU3) - 5760*dilog(1 -
-         msq2/mU32)*pow14(mQ3)*pow4(mU3) - 73440*logQ3mq *pow14(mQ3)*pow4(mU3)
-         - 4800*lmQ3MR*logQ3mq*pow14(mQ3)*pow4(mU3) + 4800*dilog(1 -
-         mQ32/mU32)*logQ3mq*pow14(mQ3)*pow4(mU3) - 7272*
-         logQ3U3*pow14(mQ3)*pow4(mU3) - 119760*lmQ3MR*logQ3U3*
-         pow14(mQ3)*pow4(mU3) + 14928*dilog(1 - mQ32/mU32)*logQ3U3*pow14(
-         mQ3)*pow4(mU3) + 2880*dilog(1 - msq2/mU32)*logQ3U3*pow14(mQ3)*
-         pow4(mU3) + 25200*logQ3mq*logQ3U3*pow14(mQ3)*pow4(mU3) -
-         7680*lmQ3MR*logQ3mq*logQ3U3*pow14(mQ3)*pow4(mU3) + 93120*
-         msq2*pow12(mQ3)*pow2(lmQ3MR)*pow4(mU3) - 79008*msq2*logQ3U3*
-         pow12(mQ3)*pow2(lmQ3MR)*pow4(mU3) -
-         93120*pow14(mQ3)*pow2(lmQ3MR)*pow4( mU3) +
-         79008*logQ3U3*pow14(mQ3)*pow2(lmQ3MR)*pow4(mU3) + 3510*
-         msq2*pow12(mQ3)*pow2(logQ3mq)*pow4(mU3) -
-         5085*msq2*logQ3U3*pow12(mQ3)*pow2(logQ3mq)*pow4(mU3) -
-         1530*pow14(mQ3)*pow2( logQ3mq)*pow4(mU3) +
-         1035*logQ3U3*pow14(mQ3)*pow2(logQ3mq)*pow4(mU3) -
-         27816*msq2*pow12(mQ3)*pow2(logQ3U3)* pow4(mU3) +
-         18240*lmQ3MR*msq2*pow12(mQ3)*pow2(logQ3U3)*pow4(mU3) +
-         1920*msq2*logQ3mq*pow12(mQ3)*pow2(logQ3U3)*pow4(mU3) +
-         26376*pow14(mQ3)*pow2(logQ3U3)*pow4(mU3) - 18240*lmQ3MR*pow14(
-         mQ3)*pow2(logQ3U3)*pow4(mU3) + 6720*logQ3mq*pow14(mQ3)*
-         pow2(logQ3U3)*pow4(mU3) -
-         16200*msq2*pow12(mQ3)*pow3(logQ3U3)*pow4(mU3) +
-         11880*pow14(mQ3)*pow3(logQ3U3)*pow4(mU3) + 90*(3*mQ32 +
-         msq2)*mU32*dilog(1 - msq2/mQ32)*(-2*mQ32 + 2*mU32 + (mQ32 +
-         mU32)*logQ3U3)*pow2(mQ32 - msq2)*pow4(mQ32 - mU32) + 29968*
-         pow12(mU3)*pow6(mQ3) + 58720*lmQ3MR*pow12(mU3)*pow6(mQ3) -
-         3936*dilog(1 - mQ32/mU32)*pow12(mU3)*pow6(mQ3) - 5376*lmQ3MR*dilog(1 -
-         mQ32/mU32)* pow12(mU3)*pow6(mQ3) + 2880*dilog(1 -
-         msq2/mU32)*pow12(mU3)*pow6(mQ3) - 15840*logQ3mq*pow12(mU3)*pow6(mQ3) +
-         960*lmQ3MR*logQ3mq* pow12(mU3)*pow6(mQ3) + 960*dilog(1 -
-         mQ32/mU32)*logQ3mq*pow12( mU3)*pow6(mQ3) -
-         520*logQ3U3*pow12(mU3)*pow6(mQ3) + 63920*
-         lmQ3MR*logQ3U3*pow12(mU3)*pow6(mQ3) + 528*dilog(1 - mQ32/mU32)*
-         logQ3U3*pow12(mU3)*pow6(mQ3) + 1440*dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mU3)*pow6(mQ3) - 12240*logQ3mq*logQ3U3*
-         pow12(mU3)*pow6(mQ3) - 29376*pow12(mU3)*pow2(lmQ3MR)*pow6(mQ3) -
-         12000* logQ3U3*pow12(mU3)*pow2(lmQ3MR)*pow6(mQ3) + 1710*pow12(mU3)*
-         pow2(logQ3mq)*pow6(mQ3) + 855*logQ3U3*pow12(mU3)*pow2(
-         logQ3mq)*pow6(mQ3) - 14616*pow12(mU3)*pow2(logQ3U3)*pow6( mQ3) +
-         17376*lmQ3MR*pow12(mU3)*pow2(logQ3U3)*pow6(mQ3) - 2400*
-         logQ3mq*pow12(mU3)*pow2(logQ3U3)*pow6(mQ3) - 4056*pow12(
-         mU3)*pow3(logQ3U3)*pow6(mQ3) + 90*pow12(mU3)*pow2(logQ3mq )*pow6(msq)
-         + 45*logQ3U3*pow12(mU3)*pow2(logQ3mq)*pow6( msq) -
-         919840*pow12(mQ3)*pow6(mU3) - 301504*lmQ3MR*pow12(mQ3)*pow6(mU3) -
-         216384*dilog(1 - mQ32/mU32)*pow12(mQ3)*pow6(mU3) + 53760*lmQ3MR*
-         dilog(1 - mQ32/mU32)*pow12(mQ3)*pow6(mU3) + 2880*dilog(1 - msq2/mU32)*
-         pow12(mQ3)*pow6(mU3) + 154560*logQ3mq*pow12(mQ3)*pow6(mU3) -
-         9600*dilog(1 - mQ32/mU32)*logQ3mq*pow12(mQ3)*pow6(mU3) - 284624*
-         logQ3U3*pow12(mQ3)*pow6(mU3) + 137056*lmQ3MR*logQ3U3*
-         pow12(mQ3)*pow6(mU3) - 89952*dilog(1 - mQ32/mU32)*logQ3U3*pow12(
-         mQ3)*pow6(mU3) + 4320*dilog(1 - msq2/mU32)*logQ3U3*pow12(mQ3)*
-         pow6(mU3) - 4320*logQ3mq*logQ3U3*pow12(mQ3)*pow6(mU3) +
-         11520*lmQ3MR*logQ3mq*logQ3U3*pow12(mQ3)*pow6(mU3) +
-         240000*pow12(mQ3)*pow2(lmQ3MR)*pow6(mU3) - 88512*logQ3U3*pow12(
-         mQ3)*pow2(lmQ3MR)*pow6(mU3) - 1260*pow12(mQ3)*pow2(logQ3mq)* pow6(mU3)
-         + 2430*logQ3U3*pow12(mQ3)*pow2(logQ3mq)*pow6( mU3) -
-         41424*pow12(mQ3)*pow2(logQ3U3)*pow6(mU3) + 62496*lmQ3MR*
-         pow12(mQ3)*pow2(logQ3U3)*pow6(mU3) - 11040*logQ3mq*pow12(
-         mQ3)*pow2(logQ3U3)*pow6(mU3) -
-         39888*pow12(mQ3)*pow3(logQ3U3)*pow6(mU3) + 2880*dilog(1 -
-         msq2/mU32)*pow6(mQ3)*pow6(msq)*pow6( mU3) + 4320*dilog(1 -
-         msq2/mU32)*logQ3U3*pow6(mQ3)*pow6(msq)* pow6(mU3) -
-         2880*logQ3mq*logQ3U3*pow6(mQ3)*pow6(msq)* pow6(mU3) +
-         540*pow2(logQ3mq)*pow6(mQ3)*pow6(msq)*pow6(mU3) +
-         2250*logQ3U3*pow2(logQ3mq)*pow6(mQ3)*pow6(msq)*pow6(mU3) +
-         1440*pow2(logQ3U3)*pow6(mQ3)*pow6(msq)*pow6(mU3) -
-         4320*logQ3mq*pow2(logQ3U3)*pow6(mQ3)*pow6(msq)*pow6(mU3) + 2160*
-         pow3(logQ3U3)*pow6(mQ3)*pow6(msq)*pow6(mU3) - 14400*dilog(1 -
-         msq2/mU32)*pow4(mU3)*pow6(msq)*pow8(mQ3) - 1440*dilog(1 - msq2/mU32)*
-         logQ3U3*pow4(mU3)*pow6(msq)*pow8(mQ3) + 14400*logQ3mq*
-         logQ3U3*pow4(mU3)*pow6(msq)*pow8(mQ3) - 6750*pow2(logQ3mq
-         )*pow4(mU3)*pow6(msq)*pow8(mQ3) -
-         855*logQ3U3*pow2(logQ3mq)*pow4(mU3)*pow6(msq)*pow8(mQ3) -
-         7200*pow2(logQ3U3)*pow4( mU3)*pow6(msq)*pow8(mQ3) +
-         1440*logQ3mq*pow2(logQ3U3)* pow4(mU3)*pow6(msq)*pow8(mQ3) -
-         720*pow3(logQ3U3)*pow4(mU3)* pow6(msq)*pow8(mQ3) +
-         17280*pow4(msq)*pow6(mU3)*pow8(mQ3) + 25920* dilog(1 -
-         msq2/mU32)*pow4(msq)*pow6(mU3)*pow8(mQ3) -
-         17280*logQ3mq*pow4(msq)*pow6(mU3)*pow8(mQ3) + 20160*logQ3U3*pow4(msq)*
-         pow6(mU3)*pow8(mQ3) - 7200*dilog(1 - msq2/mU32)*logQ3U3*pow4(
-         msq)*pow6(mU3)*pow8(mQ3) - 31680*logQ3mq*logQ3U3*pow4(
-         msq)*pow6(mU3)*pow8(mQ3) + 12060*pow2(logQ3mq)*pow4(msq)*pow6(
-         mU3)*pow8(mQ3) - 3510*logQ3U3*pow2(logQ3mq)*pow4(msq)*
-         pow6(mU3)*pow8(mQ3) + 14400*pow2(logQ3U3)*pow4(msq)*pow6(mU3)*
-         pow8(mQ3) + 7200*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow6( mU3)*pow8(mQ3)
-         - 3600*pow3(logQ3U3)*pow4(msq)*pow6(mU3)*pow8( mQ3) - 20160*dilog(1 -
-         msq2/mU32)*pow4(msq)*pow6(mQ3)*pow8(mU3) - 5760*
-         logQ3U3*pow4(msq)*pow6(mQ3)*pow8(mU3) - 10080*dilog(1 - msq2/
-         mU32)*logQ3U3*pow4(msq)*pow6(mQ3)*pow8(mU3) +
-         23040*logQ3mq*logQ3U3*pow4(msq)*pow6(mQ3)*pow8(mU3) -
-         9180*pow2(logQ3mq)*pow4(msq)*pow6(mQ3)*pow8(mU3) - 4950*logQ3U3*pow2(
-         logQ3mq)*pow4(msq)*pow6(mQ3)*pow8(mU3) -
-         14400*pow2(logQ3U3)*pow4(msq)*pow6(mQ3)*pow8(mU3) +
-         10080*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow6(mQ3)*pow8(mU3) -
-         5040*pow3(logQ3U3)* pow4(msq)*pow6(mQ3)*pow8(mU3) + 2880*dilog(1 -
-         msq2/mU32)*pow4(mQ3)* pow6(msq)*pow8(mU3) + 1440*dilog(1 -
-         msq2/mU32)*logQ3U3*pow4( mQ3)*pow6(msq)*pow8(mU3) -
-         2880*logQ3mq*logQ3U3*pow4(mQ3) *pow6(msq)*pow8(mU3) +
-         2340*pow2(logQ3mq)*pow4(mQ3)*pow6(msq)* pow8(mU3) +
-         810*logQ3U3*pow2(logQ3mq)*pow4(mQ3)*pow6(msq) *pow8(mU3) +
-         1440*pow2(logQ3U3)*pow4(mQ3)*pow6(msq)*pow8(mU3) -
-         1440*logQ3mq*pow2(logQ3U3)*pow4(mQ3)*pow6(msq)*pow8(mU3) +
-         720*pow3(logQ3U3)*pow4(mQ3)*pow6(msq)*pow8(mU3) - 716896*msq2*
-         pow8(mQ3)*pow8(mU3) - 406144*lmQ3MR*msq2*pow8(mQ3)*pow8(mU3) - 126528*
-         msq2*dilog(1 - mQ32/mU32)*pow8(mQ3)*pow8(mU3) + 53760*lmQ3MR*msq2*
-         dilog(1 - mQ32/mU32)*pow8(mQ3)*pow8(mU3) + 2880*msq2*dilog(1 - msq2/
-         mU32)*pow8(mQ3)*pow8(mU3) + 176640*msq2*logQ3mq*pow8(mQ3)*pow8( mU3) -
-         4800*lmQ3MR*msq2*logQ3mq*pow8(mQ3)*pow8(mU3) - 9600*msq2* dilog(1 -
-         mQ32/mU32)*logQ3mq*pow8(mQ3)*pow8(mU3) - 385168*msq2*
-         logQ3U3*pow8(mQ3)*pow8(mU3) - 44416*lmQ3MR*msq2*logQ3U3*
-         pow8(mQ3)*pow8(mU3) - 102816*msq2*dilog(1 - mQ32/mU32)*logQ3U3*
-         pow8(mQ3)*pow8(mU3) + 12960*msq2*dilog(1 - msq2/mU32)*logQ3U3*
-         pow8(mQ3)*pow8(mU3) + 21600*msq2*logQ3mq*logQ3U3*pow8( mQ3)*pow8(mU3)
-         + 7680*lmQ3MR*msq2*logQ3mq*logQ3U3*pow8( mQ3)*pow8(mU3) +
-         266880*msq2*pow2(lmQ3MR)*pow8(mQ3)*pow8(mU3) - 19008*
-         msq2*logQ3U3*pow2(lmQ3MR)*pow8(mQ3)*pow8(mU3) - 3060*msq2*pow2(
-         logQ3mq)*pow8(mQ3)*pow8(mU3) + 6030*msq2*logQ3U3*pow2(
-         logQ3mq)*pow8(mQ3)*pow8(mU3) - 54768*msq2*pow2(logQ3U3)*
-         pow8(mQ3)*pow8(mU3) + 62112*lmQ3MR*msq2*pow2(logQ3U3)*pow8(mQ3)*
-         pow8(mU3) - 12000*msq2*logQ3mq*pow2(logQ3U3)*pow8(mQ3)* pow8(mU3) -
-         16080*msq2*pow3(logQ3U3)*pow8(mQ3)*pow8(mU3) -
-         23040*pow4(msq)*pow4(mU3)*power10(mQ3) + 8640*dilog(1 - msq2/mU32)*
-         pow4(msq)*pow4(mU3)*power10(mQ3) + 23040*logQ3mq*pow4(msq)*pow4(
-         mU3)*power10(mQ3) - 5760*logQ3U3*pow4(msq)*pow4(mU3)*power10( mQ3) +
-         10080*dilog(1 - msq2/mU32)*logQ3U3*pow4(msq)*pow4(mU3)* power10(mQ3) -
-         11520*logQ3mq*logQ3U3*pow4(msq)*pow4(mU3)* power10(mQ3) +
-         4770*pow2(logQ3mq)*pow4(msq)*pow4(mU3)*power10( mQ3) +
-         4905*logQ3U3*pow2(logQ3mq)*pow4(msq)*pow4(mU3)* power10(mQ3) +
-         8640*pow2(logQ3U3)*pow4(msq)*pow4(mU3)*power10( mQ3) -
-         10080*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow4(mU3)* power10(mQ3) +
-         5040*pow3(logQ3U3)*pow4(msq)*pow4(mU3)*power10( mQ3) +
-         8640*mU32*dilog(1 - msq2/mU32)*pow6(msq)*power10(mQ3) - 4320*
-         mU32*dilog(1 - msq2/mU32)*logQ3U3*pow6(msq)*power10(mQ3) - 8640*
-         mU32*logQ3mq*logQ3U3*pow6(msq)*power10(mQ3) + 4230*mU32*
-         pow2(logQ3mq)*pow6(msq)*power10(mQ3) - 2115*mU32*logQ3U3*
-         pow2(logQ3mq)*pow6(msq)*power10(mQ3) +
-         4320*mU32*pow2(logQ3U3)*pow6(msq)*power10(mQ3) +
-         4320*mU32*logQ3mq*pow2(logQ3U3)*pow6(msq)*power10(mQ3) -
-         2160*mU32*pow3(logQ3U3)*pow6( msq)*power10(mQ3) +
-         902560*msq2*pow6(mU3)*power10(mQ3) + 301504*lmQ3MR*
-         msq2*pow6(mU3)*power10(mQ3) + 216384*msq2*dilog(1 - mQ32/mU32)*pow6(
-         mU3)*power10(mQ3) - 53760*lmQ3MR*msq2*dilog(1 - mQ32/mU32)*pow6(mU3)*
-         power10(mQ3) - 31680*msq2*dilog(1 - msq2/mU32)*pow6(mU3)*power10(mQ3)
-         - 156480*msq2*logQ3mq*pow6(mU3)*power10(mQ3) + 9600*msq2*dilog(1 -
-         mQ32/mU32)*logQ3mq*pow6(mU3)*power10(mQ3) +
-         264464*msq2*logQ3U3*pow6(mU3)*power10(mQ3) -
-         137056*lmQ3MR*msq2*logQ3U3* pow6(mU3)*power10(mQ3) +
-         89952*msq2*dilog(1 - mQ32/mU32)*logQ3U3 *pow6(mU3)*power10(mQ3) -
-         1440*msq2*dilog(1 - msq2/mU32)*logQ3U3 *pow6(mU3)*power10(mQ3) +
-         40800*msq2*logQ3mq*logQ3U3* pow6(mU3)*power10(mQ3) -
-         11520*lmQ3MR*msq2*logQ3mq*logQ3U3*pow6(mU3)*power10(mQ3) -
-         240000*msq2*pow2(lmQ3MR)*pow6(mU3)* power10(mQ3) +
-         88512*msq2*logQ3U3*pow2(lmQ3MR)*pow6(mU3)* power10(mQ3) -
-         11340*msq2*pow2(logQ3mq)*pow6(mU3)*power10(mQ3) -
-         1170*msq2*logQ3U3*pow2(logQ3mq)*pow6(mU3)*power10(mQ3) +
-         25584*msq2*pow2(logQ3U3)*pow6(mU3)*power10(mQ3) - 62496*lmQ3MR*
-         msq2*pow2(logQ3U3)*pow6(mU3)*power10(mQ3) +
-         8160*msq2*logQ3mq*pow2(logQ3U3)*pow6(mU3)*power10(mQ3) +
-         41328*msq2*pow3( logQ3U3)*pow6(mU3)*power10(mQ3) +
-         716896*pow8(mU3)*power10(mQ3) + 406144*lmQ3MR*pow8(mU3)*power10(mQ3) +
-         126528*dilog(1 - mQ32/mU32)* pow8(mU3)*power10(mQ3) -
-         53760*lmQ3MR*dilog(1 - mQ32/mU32)*pow8(mU3)* power10(mQ3) +
-         14400*dilog(1 - msq2/mU32)*pow8(mU3)*power10(mQ3) -
-         157440*logQ3mq*pow8(mU3)*power10(mQ3) +
-         4800*lmQ3MR*logQ3mq*pow8(mU3)*power10(mQ3) + 9600*dilog(1 -
-         mQ32/mU32)*logQ3mq *pow8(mU3)*power10(mQ3) +
-         390928*logQ3U3*pow8(mU3)*power10(mQ3) +
-         44416*lmQ3MR*logQ3U3*pow8(mU3)*power10(mQ3) + 102816*dilog(1 -
-         mQ32/mU32)*logQ3U3*pow8(mU3)*power10(mQ3) - 4320*dilog(1 - msq2/
-         mU32)*logQ3U3*pow8(mU3)*power10(mQ3) -
-         39840*logQ3mq*logQ3U3*pow8(mU3)*power10(mQ3) -
-         7680*lmQ3MR*logQ3mq*logQ3U3*pow8(mU3)*power10(mQ3) -
-         266880*pow2(lmQ3MR)*pow8(mU3)* power10(mQ3) +
-         19008*logQ3U3*pow2(lmQ3MR)*pow8(mU3)*power10(mQ3) +
-         9900*pow2(logQ3mq)*pow8(mU3)*power10(mQ3) -
-         1890*logQ3U3*pow2(logQ3mq)*pow8(mU3)*power10(mQ3) +
-         67728*pow2(logQ3U3)*pow8(mU3)*power10(mQ3) -
-         62112*lmQ3MR*pow2(logQ3U3)* pow8(mU3)*power10(mQ3) +
-         3360*logQ3mq*pow2(logQ3U3)*pow8( mU3)*power10(mQ3) +
-         20400*pow3(logQ3U3)*pow8(mU3)*power10(mQ3) - 90*(mQ32 -
-         mU32)*mU32*dilog(1 - mQ32/msq2)*(-2*mQ32 + 2*mU32 + (mQ32 +
-         mU32)*logQ3U3)*(29*pow12(mQ3) + pow6(mQ3)*(-109*mU32*pow4(msq) -
-         33*msq2*pow4(mU3) + 47*pow6(msq) - 13*pow6(mU3)) + pow6(msq)*pow6(mU3)
-         + pow4(mQ3)*(-3*pow4(msq)*pow4(mU3) + 19*mU32*pow6(msq) +
-         11*msq2*pow6( mU3)) + mQ32*(-3*pow4(mU3)*pow6(msq) +
-         pow4(msq)*pow6(mU3)) + (209* msq2*mU32 - 81*pow4(msq) +
-         39*pow4(mU3))*pow8(mQ3) + (5*msq2 - 119* mU32)*power10(mQ3)) -
-         2880*pow4(mQ3)*pow4(msq)*power10(mU3) +
-         2880*logQ3mq*pow4(mQ3)*pow4(msq)*power10(mU3) - 4320*logQ3U3*pow4(
-         mQ3)*pow4(msq)*power10(mU3) + 1440*logQ3mq*logQ3U3*pow4(
-         mQ3)*pow4(msq)*power10(mU3) - 450*pow2(logQ3mq)*pow4(mQ3)*pow4(
-         msq)*power10(mU3) - 135*logQ3U3*pow2(logQ3mq)*pow4(mQ3)*
-         pow4(msq)*power10(mU3) - 1440*pow2(logQ3U3)*pow4(mQ3)*pow4(msq)*
-         power10(mU3) + 257936*msq2*pow6(mQ3)*power10(mU3) +
-         249824*lmQ3MR*msq2* pow6(mQ3)*power10(mU3) + 20640*msq2*dilog(1 -
-         mQ32/mU32)*pow6(mQ3)* power10(mU3) - 26880*lmQ3MR*msq2*dilog(1 -
-         mQ32/mU32)*pow6(mQ3)* power10(mU3) + 14400*msq2*dilog(1 -
-         msq2/mU32)*pow6(mQ3)*power10(mU3) -
-         91680*msq2*logQ3mq*pow6(mQ3)*power10(mU3) + 3840*lmQ3MR*msq2*
-         logQ3mq*pow6(mQ3)*power10(mU3) + 4800*msq2*dilog(1 - mQ32/mU32)*
-         logQ3mq*pow6(mQ3)*power10(mU3) + 152712*msq2*logQ3U3*
-         pow6(mQ3)*power10(mU3) + 151824*lmQ3MR*msq2*logQ3U3*pow6(mQ3)*
-         power10(mU3) + 36528*msq2*dilog(1 - mQ32/mU32)*logQ3U3*pow6(mQ3)
-         *power10(mU3) + 4320*msq2*dilog(1 - msq2/mU32)*logQ3U3*pow6(mQ3)
-         *power10(mU3) - 45360*msq2*logQ3mq*logQ3U3*pow6(mQ3)* power10(mU3) -
-         1920*lmQ3MR*msq2*logQ3mq*logQ3U3*pow6(mQ3) *power10(mU3) -
-         141504*msq2*pow2(lmQ3MR)*pow6(mQ3)*power10(mU3) -
-         25248*msq2*logQ3U3*pow2(lmQ3MR)*pow6(mQ3)*power10(mU3) + 9450*
-         msq2*pow2(logQ3mq)*pow6(mQ3)*power10(mU3) +
-         2835*msq2*logQ3U3*pow2(logQ3mq)*pow6(mQ3)*power10(mU3) +
-         20904*msq2*pow2( logQ3U3)*pow6(mQ3)*power10(mU3) +
-         2016*lmQ3MR*msq2*pow2(logQ3U3)*pow6(mQ3)*power10(mU3) -
-         4320*msq2*logQ3mq*pow2(logQ3U3)*pow6(mQ3)*power10(mU3) -
-         7080*msq2*pow3(logQ3U3)* pow6(mQ3)*power10(mU3) -
-         450*mQ32*pow2(logQ3mq)*pow6(msq)* power10(mU3) -
-         135*mQ32*logQ3U3*pow2(logQ3mq)*pow6(msq)* power10(mU3) -
-         255056*pow8(mQ3)*power10(mU3) - 249824*lmQ3MR*pow8(mQ3)* power10(mU3)
-         - 20640*dilog(1 - mQ32/mU32)*pow8(mQ3)*power10(mU3) +
-         26880*lmQ3MR*dilog(1 - mQ32/mU32)*pow8(mQ3)*power10(mU3) -
-         14400*dilog( 1 - msq2/mU32)*pow8(mQ3)*power10(mU3) +
-         79200*logQ3mq*pow8(mQ3)* power10(mU3) -
-         3840*lmQ3MR*logQ3mq*pow8(mQ3)*power10(mU3) - 4800*dilog(1 -
-         mQ32/mU32)*logQ3mq*pow8(mQ3)*power10(mU3) -
-         148392*logQ3U3*pow8(mQ3)*power10(mU3) -
-         151824*lmQ3MR*logQ3U3*pow8(mQ3)*power10(mU3) - 36528*dilog(1 -
-         mQ32/mU32)*logQ3U3*pow8(mQ3)*power10(mU3) - 4320*dilog(1 -
-         msq2/mU32)*logQ3U3 *pow8(mQ3)*power10(mU3) +
-         41040*logQ3mq*logQ3U3*pow8(mQ3) *power10(mU3) +
-         1920*lmQ3MR*logQ3mq*logQ3U3*pow8(mQ3)* power10(mU3) +
-         141504*pow2(lmQ3MR)*pow8(mQ3)*power10(mU3) +
-         25248*logQ3U3*pow2(lmQ3MR)*pow8(mQ3)*power10(mU3) -
-         8550*pow2(logQ3mq)*pow8(mQ3)*power10(mU3) - 2565*logQ3U3*pow2(logQ3mq
-         )*pow8(mQ3)*power10(mU3) - 19464*pow2(logQ3U3)*pow8(mQ3)* power10(mU3)
-         - 2016*lmQ3MR*pow2(logQ3U3)*pow8(mQ3)*power10(mU3) +
-         4320*logQ3mq*pow2(logQ3U3)*pow8(mQ3)*power10(mU3) +
-         7080*pow3(logQ3U3)*pow8(mQ3)*power10(mU3)))/(18.*(mQ32 - msq2)*
-         mU32*pow4(mQ3)*pow7(mQ32 - mU32))+ (4*Xt5*(-3424*mU32*pow12(mQ3) +
-         2208*lmQ3MR*mU32*pow12(mQ3) - 192*mU32* dilog(1 -
-         mQ32/mU32)*pow12(mQ3) - 160*mU32*logQ3mq*pow12(mQ3) +
-         3360*mU32*logQ3U3*pow12(mQ3) - 2768*lmQ3MR*mU32*logQ3U3* pow12(mQ3) +
-         224*mU32*dilog(1 - mQ32/mU32)*logQ3U3*pow12(mQ3) +
-         80*mU32*logQ3mq*logQ3U3*pow12(mQ3) - 256*pow14(mQ3) +
-         256*lmQ3MR*pow14(mQ3) + 30*mU32*pow12(mQ3)*pow2(logQ3mq) - 15*
-         mU32*logQ3U3*pow12(mQ3)*pow2(logQ3mq) - 216*mU32*pow12(
-         mQ3)*pow2(logQ3U3) + 256*lmQ3MR*mU32*pow12(mQ3)*pow2(logQ3U3) -
-         30*mU32*dilog(1 - msq2/mQ32)*(-2*mQ32 + 2*mU32 + (mQ32 + mU32)
-         *logQ3U3)*pow2(mQ32 - msq2)*pow3(mQ32 - mU32) + 112*mU32*pow12(
-         mQ3)*pow3(logQ3U3) - 1920*dilog(1 - msq2/mU32)*pow4(msq)*pow4(
-         mU3)*pow6(mQ3) + 1920*logQ3mq*logQ3U3*pow4(msq)*pow4(mU3) *pow6(mQ3) -
-         1080*pow2(logQ3mq)*pow4(msq)*pow4(mU3)*pow6(mQ3) +
-         30*logQ3U3*pow2(logQ3mq)*pow4(msq)*pow4(mU3)*pow6(mQ3) -
-         960*pow2(logQ3U3)*pow4(msq)*pow4(mU3)*pow6(mQ3) + 960*dilog(1 -
-         msq2/mU32)*pow4(mQ3)*pow4(msq)*pow6(mU3) + 480*dilog(1 - msq2/mU32)*
-         logQ3U3*pow4(mQ3)*pow4(msq)*pow6(mU3) -
-         960*logQ3mq*logQ3U3*pow4(mQ3)*pow4(msq)*pow6(mU3) + 660*pow2(logQ3mq)*
-         pow4(mQ3)*pow4(msq)*pow6(mU3) + 240*logQ3U3*pow2(logQ3mq)
-         *pow4(mQ3)*pow4(msq)*pow6(mU3) + 480*pow2(logQ3U3)*pow4(mQ3)*
-         pow4(msq)*pow6(mU3) - 480*logQ3mq*pow2(logQ3U3)*pow4(mQ3)
-         *pow4(msq)*pow6(mU3) + 240*pow3(logQ3U3)*pow4(mQ3)*pow4(msq)*
-         pow6(mU3) + 2880*msq2*pow6(mQ3)*pow6(mU3) + 3840*msq2*dilog(1 - msq2/
-         mU32)*pow6(mQ3)*pow6(mU3) - 2880*msq2*logQ3mq*pow6(mQ3)*pow6( mU3) +
-         2400*msq2*logQ3U3*pow6(mQ3)*pow6(mU3) -
-         4320*msq2*logQ3mq*logQ3U3*pow6(mQ3)*pow6(mU3) +
-         1560*msq2*pow2(logQ3mq)*pow6(mQ3)*pow6(mU3) +
-         1920*msq2*pow2(logQ3U3)*pow6( mQ3)*pow6(mU3) + 960*mU32*dilog(1 -
-         msq2/mU32)*pow4(msq)*pow8(mQ3) - 480*mU32*dilog(1 -
-         msq2/mU32)*logQ3U3*pow4(msq)*pow8(mQ3) - 960*
-         mU32*logQ3mq*logQ3U3*pow4(msq)*pow8(mQ3) + 510*mU32*pow2(
-         logQ3mq)*pow4(msq)*pow8(mQ3) -
-         255*mU32*logQ3U3*pow2(logQ3mq)*pow4(msq)*pow8(mQ3) +
-         480*mU32*pow2(logQ3U3)*pow4( msq)*pow8(mQ3) +
-         480*mU32*logQ3mq*pow2(logQ3U3)*pow4(msq) *pow8(mQ3) -
-         240*mU32*pow3(logQ3U3)*pow4(msq)*pow8(mQ3) - 2880*
-         msq2*pow4(mU3)*pow8(mQ3) - 1920*msq2*dilog(1 - msq2/mU32)*pow4(mU3)*
-         pow8(mQ3) + 2880*msq2*logQ3mq*pow4(mU3)*pow8(mQ3) - 480*msq2*
-         logQ3U3*pow4(mU3)*pow8(mQ3) + 960*msq2*dilog(1 -
-         msq2/mU32)*logQ3U3*pow4(mU3)*pow8(mQ3) +
-         1440*msq2*logQ3mq*logQ3U3*pow4(mU3)*pow8(mQ3) -
-         720*msq2*pow2(logQ3mq)*pow4(mU3)* pow8(mQ3) +
-         420*msq2*logQ3U3*pow2(logQ3mq)*pow4(mU3)* pow8(mQ3) -
-         480*msq2*pow2(logQ3U3)*pow4(mU3)*pow8(mQ3) - 960*
-         msq2*logQ3mq*pow2(logQ3U3)*pow4(mU3)*pow8(mQ3) + 480*
-         msq2*pow3(logQ3U3)*pow4(mU3)*pow8(mQ3) - 24128*pow6(mU3)*pow8( mQ3) +
-         18560*lmQ3MR*pow6(mU3)*pow8(mQ3) - 1152*dilog(1 - mQ32/mU32)*
-         pow6(mU3)*pow8(mQ3) + 960*dilog(1 - msq2/mU32)*pow6(mU3)*pow8(mQ3) -
-         960*logQ3mq*pow6(mU3)*pow8(mQ3) - 12160*logQ3U3*pow6(mU3) *pow8(mQ3) +
-         4256*lmQ3MR*logQ3U3*pow6(mU3)*pow8(mQ3) + 768* dilog(1 -
-         mQ32/mU32)*logQ3U3*pow6(mU3)*pow8(mQ3) - 480*dilog(1 -
-         msq2/mU32)*logQ3U3*pow6(mU3)*pow8(mQ3) -
-         480*logQ3mq*logQ3U3*pow6(mU3)*pow8(mQ3) + 660*pow2(logQ3mq)*pow6(mU3)*
-         pow8(mQ3) - 240*logQ3U3*pow2(logQ3mq)*pow6(mU3)*pow8(mQ3) +
-         704*pow2(logQ3U3)*pow6(mU3)*pow8(mQ3) -
-         2528*lmQ3MR*pow2(logQ3U3)*pow6(mU3)*pow8(mQ3) +
-         80*logQ3mq*pow2(logQ3U3 )*pow6(mU3)*pow8(mQ3) +
-         1352*pow3(logQ3U3)*pow6(mU3)*pow8(mQ3) - 30*(mQ32 - mU32)*mU32*dilog(1
-         - mQ32/msq2)*(-2*mQ32 + 2*mU32 + (mQ32 +
-         mU32)*logQ3U3)*(-2*mQ32*msq2*mU32*(msq2 + mU32) + pow4(msq)* pow4(mU3)
-         + pow4(mQ3)*(-28*msq2*mU32 + 17*pow4(msq) + 17*pow4(mU3)) - 2*(msq2 +
-         mU32)*pow6(mQ3) + pow8(mQ3)) - 960*msq2*pow4(mQ3)*pow8(mU3) -
-         1920*msq2*dilog(1 - msq2/mU32)*pow4(mQ3)*pow8(mU3) +
-         960*msq2*logQ3mq*pow4(mQ3)*pow8(mU3) -
-         1440*msq2*logQ3U3*pow4(mQ3)*pow8( mU3) - 960*msq2*dilog(1 -
-         msq2/mU32)*logQ3U3*pow4(mQ3)*pow8(mU3) +
-         2400*msq2*logQ3mq*logQ3U3*pow4(mQ3)*pow8(mU3) - 720*
-         msq2*pow2(logQ3mq)*pow4(mQ3)*pow8(mU3) - 420*msq2*logQ3U3
-         *pow2(logQ3mq)*pow4(mQ3)*pow8(mU3) -
-         1440*msq2*pow2(logQ3U3)*pow4(mQ3)*pow8(mU3) +
-         960*msq2*logQ3mq*pow2(logQ3U3)*pow4(mQ3)*pow8(mU3) -
-         480*msq2*pow3(logQ3U3)*pow4(mQ3)* pow8(mU3) -
-         120*mQ32*pow2(logQ3mq)*pow4(msq)*pow8(mU3) - 30*
-         mQ32*logQ3U3*pow2(logQ3mq)*pow4(msq)*pow8(mU3) + 16000*
-         pow6(mQ3)*pow8(mU3) - 12864*lmQ3MR*pow6(mQ3)*pow8(mU3) + 768*dilog(1 -
-         mQ32/mU32)*pow6(mQ3)*pow8(mU3) - 1920*dilog(1 - msq2/mU32)*pow6(mQ3)*
-         pow8(mU3) + 640*logQ3mq*pow6(mQ3)*pow8(mU3) +
-         17600*logQ3U3*pow6(mQ3)*pow8(mU3) -
-         9920*lmQ3MR*logQ3U3*pow6(mQ3)*pow8( mU3) - 320*dilog(1 -
-         mQ32/mU32)*logQ3U3*pow6(mQ3)*pow8(mU3) +
-         640*logQ3mq*logQ3U3*pow6(mQ3)*pow8(mU3) -
-         1080*pow2(logQ3mq)*pow6(mQ3)*pow8(mU3) - 30*logQ3U3*pow2(logQ3mq
-         )*pow6(mQ3)*pow8(mU3) + 5872*pow2(logQ3U3)*pow6(mQ3)*pow8(mU3) -
-         448*lmQ3MR*pow2(logQ3U3)*pow6(mQ3)*pow8(mU3) + 80*logQ3mq
-         *pow2(logQ3U3)*pow6(mQ3)*pow8(mU3) + 232*pow3(logQ3U3)*
-         pow6(mQ3)*pow8(mU3) + 960*msq2*mU32*power10(mQ3) -
-         960*msq2*mU32*logQ3mq*power10(mQ3) -
-         480*msq2*mU32*logQ3U3*power10(mQ3) +
-         480*msq2*mU32*logQ3mq*logQ3U3*power10(mQ3) - 60*msq2*
-         mU32*pow2(logQ3mq)*power10(mQ3) + 30*msq2*mU32*logQ3U3*
-         pow2(logQ3mq)*power10(mQ3) + 15744*pow4(mU3)*power10(mQ3) -
-         11456*lmQ3MR*pow4(mU3)*power10(mQ3) + 768*dilog(1 - mQ32/mU32)*pow4(
-         mU3)*power10(mQ3) + 640*logQ3mq*pow4(mU3)*power10(mQ3) - 2240*
-         logQ3U3*pow4(mU3)*power10(mQ3) + 4160*lmQ3MR*logQ3U3*
-         pow4(mU3)*power10(mQ3) - 704*dilog(1 - mQ32/mU32)*logQ3U3*pow4(
-         mU3)*power10(mQ3) - 120*pow2(logQ3mq)*pow4(mU3)*power10(mQ3) +
-         30*logQ3U3*pow2(logQ3mq)*pow4(mU3)*power10(mQ3) - 2480*
-         pow2(logQ3U3)*pow4(mU3)*power10(mQ3) +
-         1472*lmQ3MR*pow2(logQ3U3)*pow4(mU3)*power10(mQ3) -
-         80*logQ3mq*pow2(logQ3U3)*pow4(mU3)*power10(mQ3) -
-         616*pow3(logQ3U3)*pow4(mU3)* power10(mQ3) -
-         60*mQ32*msq2*pow2(logQ3mq)*power10(mU3) - 30*
-         mQ32*msq2*logQ3U3*pow2(logQ3mq)*power10(mU3) - 3936*pow4(
-         mQ3)*power10(mU3) + 3296*lmQ3MR*pow4(mQ3)*power10(mU3) - 192*dilog(1 -
-         mQ32/mU32)*pow4(mQ3)*power10(mU3) + 960*dilog(1 -
-         msq2/mU32)*pow4(mQ3)* power10(mU3) -
-         160*logQ3mq*pow4(mQ3)*power10(mU3) -
-         6560*logQ3U3*pow4(mQ3)*power10(mU3) + 4272*lmQ3MR*logQ3U3*pow4(
-         mQ3)*power10(mU3) + 32*dilog(1 - mQ32/mU32)*logQ3U3*pow4(mQ3)*
-         power10(mU3) + 480*dilog(1 - msq2/mU32)*logQ3U3*pow4(mQ3)*
-         power10(mU3) - 240*logQ3mq*logQ3U3*pow4(mQ3)*power10(mU3) +
-         510*pow2(logQ3mq)*pow4(mQ3)*power10(mU3) + 255*logQ3U3*
-         pow2(logQ3mq)*pow4(mQ3)*power10(mU3) - 3880*pow2(logQ3U3)
-         *pow4(mQ3)*power10(mU3) + 1248*lmQ3MR*pow2(logQ3U3)*pow4(mQ3)*
-         power10(mU3) - 80*logQ3mq*pow2(logQ3U3)*pow4(mQ3)* power10(mU3) -
-         824*pow3(logQ3U3)*pow4(mQ3)*power10(mU3) + 30*
-         pow2(logQ3mq)*pow4(msq)*power10(mU3) + 15*logQ3U3*pow2(
-         logQ3mq)*pow4(msq)*power10(mU3)))/(3.*mU32*pow3(mQ3)*pow7(mQ32 -
-         mU32))+ (1280*mQ32*Xt6*(-2*mQ32 + 2*mU32 + (mQ32 +
-         mU32)*logQ3U3)*pow2(- mQ32 + mU32 + mU32*logQ3U3))/(3.*pow7(mQ32 -
-         mU32));
-      }
+   const auto add = [] (const Poly& a, const Poly& b) {
+      Poly c = Poly::Zero(std::max(a.size(), b.size()));
+      c.head(a.size()) += a;
+      c.head(b.size()) += b;
+      return c;
+   };
 
-      case Limits::MU3_EQ_M3: {
-         const double logQ3U3 = std::log(mQ32/mU32);
-         const double logU3Q3 = -logQ3U3;
-         const double logQ3mq = std::log(mQ32/msq2);
-         const double logU3mq = std::log(mU32/msq2);
-
-         return
-         (Xt4*(84*msq2*mU32*dilog(1 - mU32/mQ32)*pow14(mQ3) -
-         78*msq2*mU32*dilog(1 - mU32/mQ32)*logQ3U3*pow14(mQ3) +
-         244640*mQ32*msq2*pow14(mU3) - 13120*lmQ3MR*mQ32*msq2*pow14(mU3) +
-         1800*mQ32*msq2*dilog(1 - msq2/mU32) *pow14(mU3) +
-         80556*mQ32*msq2*dilog(1 - mU32/mQ32)*pow14(mU3) - 10752*
-         lmQ3MR*mQ32*msq2*dilog(1 - mU32/mQ32)*pow14(mU3) + 1800*mQ32*msq2*
-         dilog(1 - mU32/msq2)*pow14(mU3) - 10560*mQ32*msq2*logQ3mq*pow14( mU3)
-         - 7680*lmQ3MR*mQ32*msq2*logQ3mq*pow14(mU3) + 1920*mQ32* msq2*dilog(1 -
-         mU32/mQ32)*logQ3mq*pow14(mU3) + 114224*mQ32*msq2* logQ3U3*pow14(mU3) +
-         70240*lmQ3MR*mQ32*msq2*logQ3U3* pow14(mU3) + 900*mQ32*msq2*dilog(1 -
-         msq2/mU32)*logQ3U3*pow14( mU3) + 24534*mQ32*msq2*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow14(mU3) + 900*mQ32*msq2*dilog(1 -
-         mU32/msq2)*logQ3U3*pow14(mU3) - 7080*
-         mQ32*msq2*logQ3mq*logQ3U3*pow14(mU3) + 3840*lmQ3MR*mQ32*
-         msq2*logQ3mq*logQ3U3*pow14(mU3) - 384*mQ32*msq2*logU3Q3*pow14(mU3) -
-         192*mQ32*msq2*logQ3U3*logU3Q3*pow14( mU3) + 36*msq2*dilog(1 -
-         mU32/mQ32)*pow16(mQ3) - 36*mU32*dilog(1 - mU32/mQ32)*pow16(mQ3) -
-         18*msq2*dilog(1 - mU32/mQ32)*logQ3U3* pow16(mQ3) + 18*mU32*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow16(mQ3) - 261920*mQ32*pow16(mU3) +
-         13120*lmQ3MR*mQ32*pow16(mU3) + 384*msq2*pow16( mU3) +
-         10368*lmQ3MR*msq2*pow16(mU3) - 1080*mQ32*dilog(1 - msq2/mU32)*
-         pow16(mU3) - 80556*mQ32*dilog(1 - mU32/mQ32)*pow16(mU3) +
-         10752*lmQ3MR* mQ32*dilog(1 - mU32/mQ32)*pow16(mU3) +
-         10440*mQ32*dilog(1 - mU32/msq2)* pow16(mU3) +
-         27840*mQ32*logQ3mq*pow16(mU3) + 7680*lmQ3MR*mQ32* logQ3mq*pow16(mU3) -
-         1920*msq2*logQ3mq*pow16(mU3) + 1920* lmQ3MR*msq2*logQ3mq*pow16(mU3) -
-         1920*mQ32*dilog(1 - mU32/mQ32)* logQ3mq*pow16(mU3) -
-         140144*mQ32*logQ3U3*pow16(mU3) - 70240*lmQ3MR*mQ32*logQ3U3*pow16(mU3)
-         - 8256*msq2*logQ3U3* pow16(mU3) + 19392*lmQ3MR*msq2*logQ3U3*pow16(mU3)
-         - 540*mQ32* dilog(1 - msq2/mU32)*logQ3U3*pow16(mU3) -
-         24534*mQ32*dilog(1 - mU32/mQ32)*logQ3U3*pow16(mU3) + 5220*mQ32*dilog(1
-         - mU32/msq2)* logQ3U3*pow16(mU3) + 15000*mQ32*logQ3mq*logQ3U3*
-         pow16(mU3) - 3840*lmQ3MR*mQ32*logQ3mq*logQ3U3*pow16(mU3) -
-         1920*msq2*logQ3mq*logQ3U3*pow16(mU3) + 384*mQ32*logU3Q3*pow16(mU3) +
-         192*mQ32*logQ3U3*logU3Q3*pow16( mU3) - 3840*mQ32*logU3mq*pow16(mU3) -
-         1920*mQ32*logQ3U3* logU3mq*pow16(mU3) - 384*pow18(mU3) -
-         10368*lmQ3MR*pow18(mU3) + 1920*logQ3mq*pow18(mU3) -
-         1920*lmQ3MR*logQ3mq*pow18(mU3) + 8256*logQ3U3*pow18(mU3) -
-         19392*lmQ3MR*logQ3U3*pow18( mU3) + 1920*logQ3mq*logQ3U3*pow18(mU3) -
-         4992*mQ32*msq2* pow14(mU3)*pow2(lmQ3MR) -
-         45504*mQ32*msq2*logQ3U3*pow14(mU3)* pow2(lmQ3MR) +
-         4992*mQ32*pow16(mU3)*pow2(lmQ3MR) - 10752*msq2*pow16(
-         mU3)*pow2(lmQ3MR) + 45504*mQ32*logQ3U3*pow16(mU3)*pow2(lmQ3MR) +
-         10752*pow18(mU3)*pow2(lmQ3MR) +
-         6660*mQ32*msq2*pow14(mU3)*pow2(logQ3mq) +
-         3330*mQ32*msq2*logQ3U3*pow14(mU3)*pow2(logQ3mq) -
-         540*mQ32*pow16(mU3)*pow2(logQ3mq) -
-         270*mQ32*logQ3U3*pow16(mU3)*pow2(logQ3mq) +
-         42*msq2*mU32*pow14(mQ3)*pow2( logQ3U3) -
-         15094*mQ32*msq2*pow14(mU3)*pow2(logQ3U3) +
-         82176*lmQ3MR*mQ32*msq2*pow14(mU3)*pow2(logQ3U3) - 2820*mQ32*
-         msq2*logQ3mq*pow14(mU3)*pow2(logQ3U3) + 18*msq2*pow16(
-         mQ3)*pow2(logQ3U3) - 18*mU32*pow16(mQ3)*pow2(logQ3U3) +
-         6814*mQ32*pow16(mU3)*pow2(logQ3U3) - 82176*lmQ3MR*mQ32*pow16(
-         mU3)*pow2(logQ3U3) - 8640*msq2*pow16(mU3)*pow2(logQ3U3) +
-         2460*mQ32*logQ3mq*pow16(mU3)*pow2(logQ3U3) + 8640*pow18(
-         mU3)*pow2(logQ3U3) - 39*msq2*mU32*pow14(mQ3)*pow3(logQ3U3 ) -
-         30099*mQ32*msq2*pow14(mU3)*pow3(logQ3U3) - 9*msq2*pow16(mQ3)
-         *pow3(logQ3U3) + 9*mU32*pow16(mQ3)*pow3(logQ3U3) + 30279*
-         mQ32*pow16(mU3)*pow3(logQ3U3) - 1072288*msq2*pow12(mU3)*pow4( mQ3) -
-         170176*lmQ3MR*msq2*pow12(mU3)*pow4(mQ3) - 9000*msq2*dilog(1 -
-         msq2/mU32)*pow12(mU3)*pow4(mQ3) - 305508*msq2*dilog(1 - mU32/mQ32)*
-         pow12(mU3)*pow4(mQ3) + 53760*lmQ3MR*msq2*dilog(1 - mU32/mQ32)*pow12(
-         mU3)*pow4(mQ3) + 71640*msq2*dilog(1 - mU32/msq2)*pow12(mU3)*pow4(mQ3)
-         + 120000*msq2*logQ3mq*pow12(mU3)*pow4(mQ3) +
-         9600*lmQ3MR*msq2*logQ3mq*pow12(mU3)*pow4(mQ3) - 9600*msq2*dilog(1 -
-         mU32/mQ32)*logQ3mq*pow12(mU3)*pow4(mQ3) +
-         24880*msq2*logQ3U3*pow12(mU3)* pow4(mQ3) -
-         621600*lmQ3MR*msq2*logQ3U3*pow12(mU3)*pow4(mQ3) - 2700*msq2*dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mU3)*pow4(mQ3) - 13062*msq2*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow12(mU3)*pow4(mQ3) + 37620*msq2*dilog(1 -
-         mU32/msq2)*logQ3U3*pow12(mU3)*pow4(mQ3) +
-         38280*msq2*logQ3mq*logQ3U3*pow12(mU3)*pow4(mQ3) - 15360*
-         lmQ3MR*msq2*logQ3mq*logQ3U3*pow12(mU3)*pow4(mQ3) + 768*
-         msq2*logU3Q3*pow12(mU3)*pow4(mQ3) + 1118368*pow14(mU3)*pow4(mQ3) +
-         170176*lmQ3MR*pow14(mU3)*pow4(mQ3) + 5400*dilog(1 - msq2/mU32)*pow14(
-         mU3)*pow4(mQ3) + 305508*dilog(1 - mU32/mQ32)*pow14(mU3)*pow4(mQ3) -
-         53760*lmQ3MR*dilog(1 - mU32/mQ32)*pow14(mU3)*pow4(mQ3) - 63720*dilog(1
-         - mU32/msq2)*pow14(mU3)*pow4(mQ3) - 166080*logQ3mq*pow14(mU3)*
-         pow4(mQ3) - 9600*lmQ3MR*logQ3mq*pow14(mU3)*pow4(mQ3) + 9600* dilog(1 -
-         mU32/mQ32)*logQ3mq*pow14(mU3)*pow4(mQ3) +
-         9680*logQ3U3*pow14(mU3)*pow4(mQ3) + 621600*lmQ3MR*logQ3U3*pow14(
-         mU3)*pow4(mQ3) + 1620*dilog(1 - msq2/mU32)*logQ3U3*pow14(mU3)*
-         pow4(mQ3) + 13062*dilog(1 - mU32/mQ32)*logQ3U3*pow14(mU3)*pow4( mQ3) -
-         21420*dilog(1 - mU32/msq2)*logQ3U3*pow14(mU3)*pow4(mQ3) -
-         40440*logQ3mq*logQ3U3*pow14(mU3)*pow4(mQ3) + 15360*
-         lmQ3MR*logQ3mq*logQ3U3*pow14(mU3)*pow4(mQ3) -
-         768*logU3Q3*pow14(mU3)*pow4(mQ3) + 19200*logU3mq*pow14(mU3)*pow4( mQ3)
-         + 5760*logQ3U3*logU3mq*pow14(mU3)*pow4(mQ3) +
-         186240*msq2*pow12(mU3)*pow2(lmQ3MR)*pow4(mQ3) +
-         158016*msq2*logQ3U3*pow12(mU3)*pow2(lmQ3MR)*pow4(mQ3) -
-         186240*pow14(mU3)*pow2( lmQ3MR)*pow4(mQ3) -
-         158016*logQ3U3*pow14(mU3)*pow2(lmQ3MR)*pow4( mQ3) +
-         7020*msq2*pow12(mU3)*pow2(logQ3mq)*pow4(mQ3) + 10170*
-         msq2*logQ3U3*pow12(mU3)*pow2(logQ3mq)*pow4(mQ3) - 3060*
-         pow14(mU3)*pow2(logQ3mq)*pow4(mQ3) - 2070*logQ3U3*pow14(
-         mU3)*pow2(logQ3mq)*pow4(mQ3) +
-         327498*msq2*pow12(mU3)*pow2(logQ3U3)*pow4(mQ3) -
-         264192*lmQ3MR*msq2*pow12(mU3)*pow2(logQ3U3)*pow4(mQ3) -
-         1140*msq2*logQ3mq*pow12(mU3)*pow2(logQ3U3)*pow4(mQ3) -
-         332178*pow14(mU3)*pow2(logQ3U3)*pow4(mQ3) +
-         264192*lmQ3MR*pow14(mU3)*pow2(logQ3U3)*pow4(mQ3) +
-         2220*logQ3mq*pow14(mU3)*pow2(logQ3U3)*pow4(mQ3) + 145527*msq2*
-         pow12(mU3)*pow3(logQ3U3)*pow4(mQ3) -
-         146067*pow14(mU3)*pow3(logQ3U3)*pow4(mQ3) + 360*mU32*dilog(1 -
-         msq2/mU32)*pow12(mQ3)*pow4( msq) + 360*mU32*dilog(1 -
-         mU32/msq2)*pow12(mQ3)*pow4(msq) - 180*mU32* dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mQ3)*pow4(msq) - 180*mU32* dilog(1 -
-         mU32/msq2)*logQ3U3*pow12(mQ3)*pow4(msq) - 360*mU32*
-         logQ3mq*logQ3U3*pow12(mQ3)*pow4(msq) + 17280*mQ32*pow12(
-         mU3)*pow4(msq) - 360*mQ32*dilog(1 - msq2/mU32)*pow12(mU3)*pow4(msq) -
-         29160*mQ32*dilog(1 - mU32/msq2)*pow12(mU3)*pow4(msq) -
-         17280*mQ32*logQ3mq*pow12(mU3)*pow4(msq) +
-         25920*mQ32*logQ3U3*pow12(mU3)* pow4(msq) - 180*mQ32*dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mU3)* pow4(msq) - 14580*mQ32*dilog(1 -
-         mU32/msq2)*logQ3U3*pow12(mU3)* pow4(msq) -
-         8280*mQ32*logQ3mq*logQ3U3*pow12(mU3)*pow4( msq) +
-         180*mU32*pow12(mQ3)*pow2(logQ3mq)*pow4(msq) - 90*mU32*
-         logQ3U3*pow12(mQ3)*pow2(logQ3mq)*pow4(msq) - 14580*mQ32*
-         pow12(mU3)*pow2(logQ3mq)*pow4(msq) - 7290*mQ32*logQ3U3*
-         pow12(mU3)*pow2(logQ3mq)*pow4(msq) + 180*mU32*pow12(mQ3)*pow2(
-         logQ3U3)*pow4(msq) + 180*mU32*logQ3mq*pow12(mQ3)*pow2(
-         logQ3U3)*pow4(msq) + 8460*mQ32*pow12(mU3)*pow2(logQ3U3)* pow4(msq) +
-         180*mQ32*logQ3mq*pow12(mU3)*pow2(logQ3U3)* pow4(msq) -
-         90*mU32*pow12(mQ3)*pow3(logQ3U3)*pow4(msq) - 90*
-         mQ32*pow12(mU3)*pow3(logQ3U3)*pow4(msq) - 59936*msq2*pow12(mQ3)*
-         pow4(mU3) - 117440*lmQ3MR*msq2*pow12(mQ3)*pow4(mU3) -
-         1800*msq2*dilog(1 - msq2/mU32)*pow12(mQ3)*pow4(mU3) +
-         6804*msq2*dilog(1 - mU32/mQ32)* pow12(mQ3)*pow4(mU3) +
-         10752*lmQ3MR*msq2*dilog(1 - mU32/mQ32)*pow12( mQ3)*pow4(mU3) +
-         3960*msq2*dilog(1 - mU32/msq2)*pow12(mQ3)*pow4(mU3) +
-         35520*msq2*logQ3mq*pow12(mQ3)*pow4(mU3) -
-         1920*lmQ3MR*msq2*logQ3mq*pow12(mQ3)*pow4(mU3) - 1920*msq2*dilog(1 -
-         mU32/mQ32)*logQ3mq*pow12(mQ3)*pow4(mU3) +
-         80112*msq2*logQ3U3*pow12(mQ3)* pow4(mU3) +
-         12256*lmQ3MR*msq2*logQ3U3*pow12(mQ3)*pow4(mU3) + 900*msq2*dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mQ3)*pow4(mU3) - 7362*msq2*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow12(mQ3)*pow4(mU3) - 1980*msq2*dilog(1 -
-         mU32/msq2)*logQ3U3*pow12(mQ3)*pow4(mU3) -
-         16920*msq2*logQ3mq*logQ3U3*pow12(mQ3)*pow4(mU3) - 768*
-         msq2*logU3Q3*pow12(mQ3)*pow4(mU3) +
-         384*msq2*logQ3U3*logU3Q3*pow12(mQ3)*pow4(mU3) - 84*dilog(1 -
-         mU32/mQ32)*pow14(mQ3)* pow4(mU3) + 78*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow14(mQ3)*pow4(mU3) +
-         58752*msq2*pow12(mQ3)*pow2(lmQ3MR)*pow4(mU3) -
-         24000*msq2*logQ3U3*pow12(mQ3)*pow2(lmQ3MR)*pow4(mU3) -
-         3780*msq2*pow12(mQ3)*pow2( logQ3mq)*pow4(mU3) +
-         1890*msq2*logQ3U3*pow12(mQ3)*pow2( logQ3mq)*pow4(mU3) -
-         19306*msq2*pow12(mQ3)*pow2(logQ3U3)* pow4(mU3) +
-         13248*lmQ3MR*msq2*pow12(mQ3)*pow2(logQ3U3)*pow4(mU3) +
-         1020*msq2*logQ3mq*pow12(mQ3)*pow2(logQ3U3)*pow4(mU3) -
-         42*pow14(mQ3)*pow2(logQ3U3)*pow4(mU3) - 63*msq2*pow12(mQ3)*pow3(
-         logQ3U3)*pow4(mU3) + 39*pow14(mQ3)*pow3(logQ3U3)*pow4( mU3) +
-         2880*mQ32*(mQ32 - msq2)*(mQ32 - mU32)*(msq2 - mU32)*dilog(1 -
-         msq2/mQ32)*(-2*mQ32 + 2*mU32 + (mQ32 + mU32)*logQ3U3)*(mQ32*( msq2 -
-         3*mU32) + 3*msq2*mU32 + pow4(mQ3) - 2*pow4(mU3))*pow4(mU3) -
-         1839680*pow12(mU3)*pow6(mQ3) - 603008*lmQ3MR*pow12(mU3)*pow6(mQ3) -
-         10800*dilog(1 - msq2/mU32)*pow12(mU3)*pow6(mQ3) - 425916*dilog(1 -
-         mU32/mQ32)*pow12(mU3)*pow6(mQ3) + 107520*lmQ3MR*dilog(1 - mU32/mQ32)*
-         pow12(mU3)*pow6(mQ3) + 110160*dilog(1 -
-         mU32/msq2)*pow12(mU3)*pow6(mQ3) + 347520*logQ3mq*pow12(mU3)*pow6(mQ3)
-         - 19200*dilog(1 - mU32/ mQ32)*logQ3mq*pow12(mU3)*pow6(mQ3) +
-         823968*logQ3U3* pow12(mU3)*pow6(mQ3) -
-         1234112*lmQ3MR*logQ3U3*pow12(mU3)*pow6( mQ3) - 1080*dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mU3)*pow6(mQ3) + 91098*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow12(mU3)*pow6(mQ3) + 1800* dilog(1 -
-         mU32/msq2)*logQ3U3*pow12(mU3)*pow6(mQ3) +
-         17520*logQ3mq*logQ3U3*pow12(mU3)*pow6(mQ3) -
-         23040*lmQ3MR*logQ3mq*logQ3U3*pow12(mU3)*pow6(mQ3) - 768*logU3Q3*pow12(
-         mU3)*pow6(mQ3) - 768*logQ3U3*logU3Q3*pow12(mU3)*pow6(mQ3) -
-         38400*logU3mq*pow12(mU3)*pow6(mQ3) -
-         3840*logQ3U3*logU3mq*pow12(mU3)*pow6(mQ3) +
-         480000*pow12(mU3)*pow2(lmQ3MR)*pow6( mQ3) +
-         177024*logQ3U3*pow12(mU3)*pow2(lmQ3MR)*pow6(mQ3) - 2520*
-         pow12(mU3)*pow2(logQ3mq)*pow6(mQ3) - 4860*logQ3U3*pow12(
-         mU3)*pow2(logQ3mq)*pow6(mQ3) +
-         658922*pow12(mU3)*pow2(logQ3U3)*pow6(mQ3) -
-         206016*lmQ3MR*pow12(mU3)*pow2(logQ3U3)*pow6( mQ3) +
-         10680*logQ3mq*pow12(mU3)*pow2(logQ3U3)*pow6(mQ3) +
-         125745*pow12(mU3)*pow3(logQ3U3)*pow6(mQ3) + 360*dilog(1 - msq2/
-         mU32)*pow12(mQ3)*pow6(msq) + 360*dilog(1 - mU32/msq2)*pow12(mQ3)*pow6(
-         msq) - 180*dilog(1 - msq2/mU32)*logQ3U3*pow12(mQ3)*pow6(msq) -
-         180*dilog(1 - mU32/msq2)*logQ3U3*pow12(mQ3)*pow6(msq) -
-         360*logQ3mq*logQ3U3*pow12(mQ3)*pow6(msq) + 180*pow12(mQ3)*pow2(
-         logQ3mq)*pow6(msq) - 90*logQ3U3*pow12(mQ3)*pow2(logQ3mq)*pow6(msq) +
-         180*pow12(mQ3)*pow2(logQ3U3)*pow6(msq) + 180*
-         logQ3mq*pow12(mQ3)*pow2(logQ3U3)*pow6(msq) - 90*pow12(
-         mQ3)*pow3(logQ3U3)*pow6(msq) + 6*mQ32*(-msq2 + mU32)*dilog(1 -
-         mQ32/mU32)*(-2*mQ32 + 2*mU32 + (mQ32 + mU32)*logQ3U3)*pow3(mQ32 -
-         mU32)*(19*mU32*pow4(mQ3) - 31*mQ32*pow4(mU3) + 3*pow6(mQ3) - 119*
-         pow6(mU3)) + 59936*pow12(mQ3)*pow6(mU3) + 117440*lmQ3MR*pow12(mQ3)*
-         pow6(mU3) + 1080*dilog(1 - msq2/mU32)*pow12(mQ3)*pow6(mU3) - 6804*
-         dilog(1 - mU32/mQ32)*pow12(mQ3)*pow6(mU3) - 10752*lmQ3MR*dilog(1 -
-         mU32/mQ32)*pow12(mQ3)*pow6(mU3) - 4680*dilog(1 -
-         mU32/msq2)*pow12(mQ3)* pow6(mU3) - 35520*logQ3mq*pow12(mQ3)*pow6(mU3)
-         + 1920*lmQ3MR* logQ3mq*pow12(mQ3)*pow6(mU3) + 1920*dilog(1 -
-         mU32/mQ32)*logQ3mq*pow12(mQ3)*pow6(mU3) -
-         80112*logQ3U3*pow12(mQ3)*pow6( mU3) -
-         12256*lmQ3MR*logQ3U3*pow12(mQ3)*pow6(mU3) - 540*dilog(1 -
-         msq2/mU32)*logQ3U3*pow12(mQ3)*pow6(mU3) + 7362*dilog(1 - mU32/
-         mQ32)*logQ3U3*pow12(mQ3)*pow6(mU3) + 2340*dilog(1 - mU32/msq2)*
-         logQ3U3*pow12(mQ3)*pow6(mU3) +
-         17640*logQ3mq*logQ3U3*pow12(mQ3)*pow6(mU3) +
-         768*logU3Q3*pow12(mQ3)*pow6(mU3) -
-         384*logQ3U3*logU3Q3*pow12(mQ3)*pow6(mU3) +
-         3840*logU3mq*pow12(mQ3)*pow6(mU3) - 1920*logQ3U3*logU3mq*pow12(
-         mQ3)*pow6(mU3) - 58752*pow12(mQ3)*pow2(lmQ3MR)*pow6(mU3) +
-         24000*logQ3U3*pow12(mQ3)*pow2(lmQ3MR)*pow6(mU3) +
-         3420*pow12(mQ3)*pow2( logQ3mq)*pow6(mU3) -
-         1710*logQ3U3*pow12(mQ3)*pow2(logQ3mq)*pow6(mU3) +
-         18946*pow12(mQ3)*pow2(logQ3U3)*pow6(mU3) -
-         13248*lmQ3MR*pow12(mQ3)*pow2(logQ3U3)*pow6(mU3) -
-         1380*logQ3mq*pow12(mQ3)*pow2(logQ3U3)*pow6(mU3) + 243*pow12(mQ3)*
-         pow3(logQ3U3)*pow6(mU3) - 3600*dilog(1 - msq2/mU32)*pow6(mQ3)*
-         pow6(msq)*pow6(mU3) + 2160*dilog(1 - mU32/msq2)*pow6(mQ3)*pow6(msq)*
-         pow6(mU3) - 360*dilog(1 - msq2/mU32)*logQ3U3*pow6(mQ3)*pow6(msq)
-         *pow6(mU3) - 9000*dilog(1 - mU32/msq2)*logQ3U3*pow6(mQ3)*pow6(
-         msq)*pow6(mU3) + 3600*logQ3mq*logQ3U3*pow6(mQ3)*pow6(msq) *pow6(mU3) +
-         1080*pow2(logQ3mq)*pow6(mQ3)*pow6(msq)*pow6(mU3) -
-         4500*logQ3U3*pow2(logQ3mq)*pow6(mQ3)*pow6(msq)*pow6(mU3) -
-         1800*pow2(logQ3U3)*pow6(mQ3)*pow6(msq)*pow6(mU3) +
-         360*logQ3mq*pow2(logQ3U3)*pow6(mQ3)*pow6(msq)*pow6(mU3) - 180*
-         pow3(logQ3U3)*pow6(mQ3)*pow6(msq)*pow6(mU3) + 3600*dilog(1 -
-         msq2/mU32)*pow4(mU3)*pow6(msq)*pow8(mQ3) + 9360*dilog(1 - mU32/msq2)*
-         pow4(mU3)*pow6(msq)*pow8(mQ3) - 360*dilog(1 - msq2/mU32)*logQ3U3
-         *pow4(mU3)*pow6(msq)*pow8(mQ3) - 3240*dilog(1 -
-         mU32/msq2)*logQ3U3*pow4(mU3)*pow6(msq)*pow8(mQ3) -
-         3600*logQ3mq*logQ3U3*pow4(mU3)*pow6(msq)*pow8(mQ3) +
-         4680*pow2(logQ3mq)*pow4( mU3)*pow6(msq)*pow8(mQ3) -
-         1620*logQ3U3*pow2(logQ3mq)* pow4(mU3)*pow6(msq)*pow8(mQ3) +
-         1800*pow2(logQ3U3)*pow4(mU3)* pow6(msq)*pow8(mQ3) +
-         360*logQ3mq*pow2(logQ3U3)*pow4(mU3) *pow6(msq)*pow8(mQ3) -
-         180*pow3(logQ3U3)*pow4(mU3)*pow6(msq)* pow8(mQ3) + 3600*dilog(1 -
-         msq2/mU32)*pow4(msq)*pow6(mU3)*pow8(mQ3) - 36720*dilog(1 -
-         mU32/msq2)*pow4(msq)*pow6(mU3)*pow8(mQ3) +
-         11520*logQ3U3*pow4(msq)*pow6(mU3)*pow8(mQ3) - 360*dilog(1 -
-         msq2/mU32)* logQ3U3*pow4(msq)*pow6(mU3)*pow8(mQ3) + 19800*dilog(1 -
-         mU32/ msq2)*logQ3U3*pow4(msq)*pow6(mU3)*pow8(mQ3) -
-         9360*logQ3mq*logQ3U3*pow4(msq)*pow6(mU3)*pow8(mQ3) -
-         18360*pow2(logQ3mq)*pow4(msq)*pow6(mU3)*pow8(mQ3) + 9900*logQ3U3*pow2(
-         logQ3mq)*pow4(msq)*pow6(mU3)*pow8(mQ3) -
-         1080*pow2(logQ3U3)*pow4(msq)*pow6(mU3)*pow8(mQ3) +
-         360*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow6(mU3)*pow8(mQ3) -
-         180*pow3(logQ3U3)* pow4(msq)*pow6(mU3)*pow8(mQ3) +
-         34560*pow4(msq)*pow6(mQ3)*pow8(mU3) - 3600*dilog(1 -
-         msq2/mU32)*pow4(msq)*pow6(mQ3)*pow8(mU3) + 48240*dilog(1 -
-         mU32/msq2)*pow4(msq)*pow6(mQ3)*pow8(mU3) - 34560*logQ3mq*pow4(
-         msq)*pow6(mQ3)*pow8(mU3) - 5760*logQ3U3*pow4(msq)*pow6(mQ3)* pow8(mU3)
-         - 360*dilog(1 - msq2/mU32)*logQ3U3*pow4(msq)*pow6(mQ3) *pow8(mU3) +
-         14040*dilog(1 - mU32/msq2)*logQ3U3*pow4(msq)*pow6( mQ3)*pow8(mU3) +
-         15120*logQ3mq*logQ3U3*pow4(msq)*pow6( mQ3)*pow8(mU3) +
-         24120*pow2(logQ3mq)*pow4(msq)*pow6(mQ3)*pow8( mU3) +
-         7020*logQ3U3*pow2(logQ3mq)*pow4(msq)*pow6(mQ3)* pow8(mU3) -
-         10440*pow2(logQ3U3)*pow4(msq)*pow6(mQ3)*pow8(mU3) +
-         360*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow6(mQ3)*pow8(mU3) -
-         180*pow3(logQ3U3)*pow4(msq)*pow6(mQ3)*pow8(mU3) + 1800*dilog(1 -
-         msq2/mU32)*pow4(mQ3)*pow6(msq)*pow8(mU3) - 27000*dilog(1 - mU32/msq2)*
-         pow4(mQ3)*pow6(msq)*pow8(mU3) + 540*dilog(1 - msq2/mU32)*logQ3U3
-         *pow4(mQ3)*pow6(msq)*pow8(mU3) + 3420*dilog(1 -
-         mU32/msq2)*logQ3U3*pow4(mQ3)*pow6(msq)*pow8(mU3) -
-         1800*logQ3mq*logQ3U3*pow4(mQ3)*pow6(msq)*pow8(mU3) -
-         13500*pow2(logQ3mq)*pow4( mQ3)*pow6(msq)*pow8(mU3) +
-         1710*logQ3U3*pow2(logQ3mq)* pow4(mQ3)*pow6(msq)*pow8(mU3) +
-         900*pow2(logQ3U3)*pow4(mQ3)* pow6(msq)*pow8(mU3) -
-         540*logQ3mq*pow2(logQ3U3)*pow4(mQ3) *pow6(msq)*pow8(mU3) +
-         270*pow3(logQ3U3)*pow4(mQ3)*pow6(msq)* pow8(mU3) -
-         1433792*msq2*pow8(mQ3)*pow8(mU3) - 812288*lmQ3MR*msq2*pow8(
-         mQ3)*pow8(mU3) - 18000*msq2*dilog(1 - msq2/mU32)*pow8(mQ3)*pow8(mU3) -
-         250452*msq2*dilog(1 - mU32/mQ32)*pow8(mQ3)*pow8(mU3) + 107520*lmQ3MR*
-         msq2*dilog(1 - mU32/mQ32)*pow8(mQ3)*pow8(mU3) + 102960*msq2*dilog(1 -
-         mU32/msq2)*pow8(mQ3)*pow8(mU3) + 353280*msq2*logQ3mq*pow8(mQ3)*
-         pow8(mU3) - 9600*lmQ3MR*msq2*logQ3mq*pow8(mQ3)*pow8(mU3) -
-         19200*msq2*dilog(1 - mU32/mQ32)*logQ3mq*pow8(mQ3)*pow8(mU3) +
-         1226272*msq2*logQ3U3*pow8(mQ3)*pow8(mU3) - 969088*lmQ3MR*msq2*
-         logQ3U3*pow8(mQ3)*pow8(mU3) + 1800*msq2*dilog(1 - msq2/mU32)*
-         logQ3U3*pow8(mQ3)*pow8(mU3) + 115674*msq2*dilog(1 - mU32/mQ32)*
-         logQ3U3*pow8(mQ3)*pow8(mU3) - 35640*msq2*dilog(1 - mU32/msq2)*
-         logQ3U3*pow8(mQ3)*pow8(mU3) -
-         21360*msq2*logQ3mq*logQ3U3*pow8(mQ3)*pow8(mU3) -
-         15360*lmQ3MR*msq2*logQ3mq*logQ3U3*pow8(mQ3)*pow8(mU3) -
-         3072*msq2*logU3Q3*pow8(mQ3)* pow8(mU3) -
-         384*msq2*logQ3U3*logU3Q3*pow8(mQ3)*pow8(mU3) +
-         533760*msq2*pow2(lmQ3MR)*pow8(mQ3)*pow8(mU3) +
-         38016*msq2*logQ3U3*pow2(lmQ3MR)*pow8(mQ3)*pow8(mU3) -
-         6120*msq2*pow2(logQ3mq) *pow8(mQ3)*pow8(mU3) -
-         12060*msq2*logQ3U3*pow2(logQ3mq)* pow8(mQ3)*pow8(mU3) +
-         363790*msq2*pow2(logQ3U3)*pow8(mQ3)*pow8( mU3) +
-         63552*lmQ3MR*msq2*pow2(logQ3U3)*pow8(mQ3)*pow8(mU3) +
-         15480*msq2*logQ3mq*pow2(logQ3U3)*pow8(mQ3)*pow8(mU3) -
-         58287*msq2*pow3(logQ3U3)*pow8(mQ3)*pow8(mU3) - 5760*pow4(msq)*
-         pow4(mU3)*power10(mQ3) - 1800*dilog(1 -
-         msq2/mU32)*pow4(msq)*pow4(mU3)* power10(mQ3) - 1800*dilog(1 -
-         mU32/msq2)*pow4(msq)*pow4(mU3)*power10( mQ3) +
-         5760*logQ3mq*pow4(msq)*pow4(mU3)*power10(mQ3) +
-         2880*logQ3U3*pow4(msq)*pow4(mU3)*power10(mQ3) + 540*dilog(1 -
-         msq2/mU32)* logQ3U3*pow4(msq)*pow4(mU3)*power10(mQ3) + 540*dilog(1 -
-         mU32/ msq2)*logQ3U3*pow4(msq)*pow4(mU3)*power10(mQ3) -
-         1080*logQ3mq*logQ3U3*pow4(msq)*pow4(mU3)*power10(mQ3) -
-         900*pow2(logQ3mq)*pow4(msq)*pow4(mU3)*power10(mQ3) + 270*logQ3U3*pow2(
-         logQ3mq)*pow4(msq)*pow4(mU3)*power10(mQ3) -
-         900*pow2(logQ3U3)*pow4(msq)*pow4(mU3)*power10(mQ3) -
-         540*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow4(mU3)*power10(mQ3) +
-         270*pow3(logQ3U3) *pow4(msq)*pow4(mU3)*power10(mQ3) -
-         1800*mU32*dilog(1 - msq2/mU32)* pow6(msq)*power10(mQ3) -
-         1800*mU32*dilog(1 - mU32/msq2)*pow6(msq)* power10(mQ3) +
-         540*mU32*dilog(1 - msq2/mU32)*logQ3U3*pow6(msq)* power10(mQ3) +
-         540*mU32*dilog(1 - mU32/msq2)*logQ3U3*pow6(msq)* power10(mQ3) +
-         1800*mU32*logQ3mq*logQ3U3*pow6(msq)* power10(mQ3) -
-         900*mU32*pow2(logQ3mq)*pow6(msq)*power10(mQ3) +
-         270*mU32*logQ3U3*pow2(logQ3mq)*pow6(msq)*power10(mQ3) -
-         900*mU32*pow2(logQ3U3)*pow6(msq)*power10(mQ3) -
-         540*mU32*logQ3mq*pow2(logQ3U3)*pow6(msq)*power10(mQ3) + 270*mU32*pow3(
-         logQ3U3)*pow6(msq)*power10(mQ3) + 515872*msq2*pow6(mU3)*power10( mQ3)
-         + 499648*lmQ3MR*msq2*pow6(mU3)*power10(mQ3) + 9000*msq2*dilog(1 -
-         msq2/mU32)*pow6(mU3)*power10(mQ3) + 42564*msq2*dilog(1 - mU32/mQ32)*
-         pow6(mU3)*power10(mQ3) - 53760*lmQ3MR*msq2*dilog(1 - mU32/mQ32)*pow6(
-         mU3)*power10(mQ3) - 19800*msq2*dilog(1 - mU32/msq2)*pow6(mU3)*power10(
-         mQ3) - 183360*msq2*logQ3mq*pow6(mU3)*power10(mQ3) + 7680*lmQ3MR*
-         msq2*logQ3mq*pow6(mU3)*power10(mQ3) + 9600*msq2*dilog(1 - mU32/
-         mQ32)*logQ3mq*pow6(mU3)*power10(mQ3) -
-         619024*msq2*logQ3U3*pow6(mU3)*power10(mQ3) +
-         254688*lmQ3MR*msq2*logQ3U3*pow6( mU3)*power10(mQ3) - 2700*msq2*dilog(1
-         - msq2/mU32)*logQ3U3*pow6( mU3)*power10(mQ3) - 28590*msq2*dilog(1 -
-         mU32/mQ32)*logQ3U3* pow6(mU3)*power10(mQ3) + 5940*msq2*dilog(1 -
-         mU32/msq2)*logQ3U3* pow6(mU3)*power10(mQ3) +
-         45240*msq2*logQ3mq*logQ3U3*pow6( mU3)*power10(mQ3) +
-         3840*lmQ3MR*msq2*logQ3mq*logQ3U3* pow6(mU3)*power10(mQ3) +
-         2688*msq2*logU3Q3*pow6(mU3)*power10( mQ3) -
-         576*msq2*logQ3U3*logU3Q3*pow6(mU3)*power10(mQ3) -
-         283008*msq2*pow2(lmQ3MR)*pow6(mU3)*power10(mQ3) + 50496*msq2*logQ3U3*
-         pow2(lmQ3MR)*pow6(mU3)*power10(mQ3) + 18900*msq2*pow2(logQ3mq)*
-         pow6(mU3)*power10(mQ3) - 5670*msq2*logQ3U3*pow2(logQ3mq)*pow6(mU3)*
-         power10(mQ3) - 1626*msq2*pow2(logQ3U3)*pow6( mU3)*power10(mQ3) -
-         100800*lmQ3MR*msq2*pow2(logQ3U3)*pow6(mU3)* power10(mQ3) -
-         1140*msq2*logQ3mq*pow2(logQ3U3)*pow6(mU3)* power10(mQ3) +
-         67587*msq2*pow3(logQ3U3)*pow6(mU3)*power10(mQ3) -
-         510112*pow8(mU3)*power10(mQ3) - 499648*lmQ3MR*pow8(mU3)*power10(mQ3) -
-         5400*dilog(1 - msq2/mU32)*pow8(mU3)*power10(mQ3) - 42564*dilog(1 -
-         mU32/mQ32)*pow8(mU3)*power10(mQ3) + 53760*lmQ3MR*dilog(1 - mU32/mQ32)*
-         pow8(mU3)*power10(mQ3) + 23400*dilog(1 - mU32/msq2)*pow8(mU3)*power10(
-         mQ3) + 177600*logQ3mq*pow8(mU3)*power10(mQ3) - 7680*lmQ3MR*logQ3mq*
-         pow8(mU3)*power10(mQ3) - 9600*dilog(1 -
-         mU32/mQ32)*logQ3mq*pow8(mU3)*power10(mQ3) +
-         616144*logQ3U3*pow8(mU3)*power10( mQ3) -
-         254688*lmQ3MR*logQ3U3*pow8(mU3)*power10(mQ3) + 1620* dilog(1 -
-         msq2/mU32)*logQ3U3*pow8(mU3)*power10(mQ3) + 28590* dilog(1 -
-         mU32/mQ32)*logQ3U3*pow8(mU3)*power10(mQ3) - 7020* dilog(1 -
-         mU32/msq2)*logQ3U3*pow8(mU3)*power10(mQ3) - 45960*logQ3mq*
-         logQ3U3*pow8(mU3)*power10(mQ3) -
-         3840*lmQ3MR*logQ3mq*logQ3U3*pow8(mU3)*power10(mQ3) - 2688*logU3Q3*
-         pow8(mU3)*power10(mQ3) + 576*logQ3U3*logU3Q3*pow8(mU3)* power10(mQ3) -
-         19200*logU3mq*pow8(mU3)*power10(mQ3) + 5760*logQ3U3*
-         logU3mq*pow8(mU3)*power10(mQ3) + 283008*pow2(lmQ3MR)*
-         pow8(mU3)*power10(mQ3) - 50496*logQ3U3*pow2(lmQ3MR)*pow8(mU3)*
-         power10(mQ3) - 17100*pow2(logQ3mq)*pow8(mU3)*power10(mQ3) +
-         5130*logQ3U3*pow2(logQ3mq)*pow8(mU3)*power10(mQ3) + 3426*
-         pow2(logQ3U3)*pow8(mU3)*power10(mQ3) + 100800*lmQ3MR*pow2(logQ3U3)*
-         pow8(mU3)*power10(mQ3) +
-         2220*logQ3mq*pow2(logQ3U3)*pow8(mU3)*power10(mQ3) -
-         68127*pow3(logQ3U3)*pow8(mU3)* power10(mQ3) -
-         46080*pow4(mQ3)*pow4(msq)*power10(mU3) + 1800*dilog(1 -
-         msq2/mU32)*pow4(mQ3)*pow4(msq)*power10(mU3) + 19080*dilog(1 - mU32/
-         msq2)*pow4(mQ3)*pow4(msq)*power10(mU3) + 46080*logQ3mq*pow4(mQ3)
-         *pow4(msq)*power10(mU3) - 34560*logQ3U3*pow4(mQ3)*pow4(msq)*
-         power10(mU3) + 540*dilog(1 - msq2/mU32)*logQ3U3*pow4(mQ3)*pow4(
-         msq)*power10(mU3) - 19620*dilog(1 - mU32/msq2)*logQ3U3*pow4(mQ3)
-         *pow4(msq)*power10(mU3) + 3960*logQ3mq*logQ3U3*pow4(mQ3)*
-         pow4(msq)*power10(mU3) + 9540*pow2(logQ3mq)*pow4(mQ3)*pow4(msq)*
-         power10(mU3) - 9810*logQ3U3*pow2(logQ3mq)*pow4(mQ3)*pow4(
-         msq)*power10(mU3) + 3780*pow2(logQ3U3)*pow4(mQ3)*pow4(msq)*
-         power10(mU3) - 540*logQ3mq*pow2(logQ3U3)*pow4(mQ3)*pow4(
-         msq)*power10(mU3) + 270*pow3(logQ3U3)*pow4(mQ3)*pow4(msq)*
-         power10(mU3) + 1805120*msq2*pow6(mQ3)*power10(mU3) + 603008*lmQ3MR*
-         msq2*pow6(mQ3)*power10(mU3) + 18000*msq2*dilog(1 -
-         msq2/mU32)*pow6(mQ3) *power10(mU3) + 425916*msq2*dilog(1 -
-         mU32/mQ32)*pow6(mQ3)*power10(mU3) - 107520*lmQ3MR*msq2*dilog(1 -
-         mU32/mQ32)*pow6(mQ3)*power10(mU3) - 160560*msq2*dilog(1 -
-         mU32/msq2)*pow6(mQ3)*power10(mU3) - 312960*msq2*
-         logQ3mq*pow6(mQ3)*power10(mU3) + 19200*msq2*dilog(1 - mU32/mQ32)
-         *logQ3mq*pow6(mQ3)*power10(mU3) - 818208*msq2*logQ3U3*
-         pow6(mQ3)*power10(mU3) + 1234112*lmQ3MR*msq2*logQ3U3*pow6(mQ3)*
-         power10(mU3) + 1800*msq2*dilog(1 - msq2/mU32)*logQ3U3*pow6(mQ3)*
-         power10(mU3) - 91098*msq2*dilog(1 - mU32/mQ32)*logQ3U3*pow6(mQ3)
-         *power10(mU3) - 6840*msq2*dilog(1 - mU32/msq2)*logQ3U3*pow6(mQ3)
-         *power10(mU3) - 36240*msq2*logQ3mq*logQ3U3*pow6(mQ3)* power10(mU3) +
-         23040*lmQ3MR*msq2*logQ3mq*logQ3U3*pow6( mQ3)*power10(mU3) +
-         768*msq2*logU3Q3*pow6(mQ3)*power10(mU3) +
-         768*msq2*logQ3U3*logU3Q3*pow6(mQ3)*power10(mU3) - 480000*
-         msq2*pow2(lmQ3MR)*pow6(mQ3)*power10(mU3) - 177024*msq2*logQ3U3*
-         pow2(lmQ3MR)*pow6(mQ3)*power10(mU3) - 22680*msq2*pow2(logQ3mq)*
-         pow6(mQ3)*power10(mU3) + 2340*msq2*logQ3U3*pow2(logQ3mq)*
-         pow6(mQ3)*power10(mU3) - 646682*msq2*pow2(logQ3U3)*pow6(mQ3)*
-         power10(mU3) + 206016*lmQ3MR*msq2*pow2(logQ3U3)*pow6(mQ3)*
-         power10(mU3) - 11400*msq2*logQ3mq*pow2(logQ3U3)*pow6(mQ3)
-         *power10(mU3) - 125385*msq2*pow3(logQ3U3)*pow6(mQ3)*power10(mU3) -
-         360*mQ32*dilog(1 - msq2/mU32)*pow6(msq)*power10(mU3) + 16920*mQ32*
-         dilog(1 - mU32/msq2)*pow6(msq)*power10(mU3) - 180*mQ32*dilog(1 - msq2/
-         mU32)*logQ3U3*pow6(msq)*power10(mU3) + 8460*mQ32*dilog(1 - mU32/
-         msq2)*logQ3U3*pow6(msq)*power10(mU3) + 360*mQ32*logQ3mq*
-         logQ3U3*pow6(msq)*power10(mU3) + 8460*mQ32*pow2(logQ3mq)*
-         pow6(msq)*power10(mU3) + 4230*mQ32*logQ3U3*pow2(logQ3mq)*
-         pow6(msq)*power10(mU3) - 180*mQ32*pow2(logQ3U3)*pow6(msq)*
-         power10(mU3) + 180*mQ32*logQ3mq*pow2(logQ3U3)*pow6(msq)* power10(mU3)
-         - 90*mQ32*pow3(logQ3U3)*pow6(msq)*power10(mU3) +
-         1433792*pow8(mQ3)*power10(mU3) + 812288*lmQ3MR*pow8(mQ3)*power10(mU3)
-         + 10800*dilog(1 - msq2/mU32)*pow8(mQ3)*power10(mU3) + 250452*dilog(1 -
-         mU32/mQ32)*pow8(mQ3)*power10(mU3) - 107520*lmQ3MR*dilog(1 -
-         mU32/mQ32)* pow8(mQ3)*power10(mU3) - 75600*dilog(1 -
-         mU32/msq2)*pow8(mQ3)*power10( mU3) -
-         353280*logQ3mq*pow8(mQ3)*power10(mU3) + 9600*lmQ3MR*logQ3mq*pow8(mQ3)*
-         power10(mU3) + 19200*dilog(1 -
-         mU32/mQ32)*logQ3mq*pow8(mQ3)*power10(mU3) - 1237792*logQ3U3*pow8(mQ3)*
-         power10(mU3) + 969088*lmQ3MR*logQ3U3*pow8(mQ3)*power10(mU3) -
-         1080*dilog(1 - msq2/mU32)*logQ3U3*pow8(mQ3)*power10(mU3) -
-         115674*dilog(1 - mU32/mQ32)*logQ3U3*pow8(mQ3)*power10(mU3) +
-         19080*dilog(1 - mU32/msq2)*logQ3U3*pow8(mQ3)*power10(mU3) +
-         34320*logQ3mq*logQ3U3*pow8(mQ3)*power10(mU3) + 15360*
-         lmQ3MR*logQ3mq*logQ3U3*pow8(mQ3)*power10(mU3) +
-         3072*logU3Q3*pow8(mQ3)*power10(mU3) + 384*logQ3U3*logU3Q3*
-         pow8(mQ3)*power10(mU3) + 38400*logU3mq*pow8(mQ3)*power10(mU3) -
-         3840*logQ3U3*logU3mq*pow8(mQ3)*power10(mU3) - 533760*
-         pow2(lmQ3MR)*pow8(mQ3)*power10(mU3) - 38016*logQ3U3*pow2(lmQ3MR)
-         *pow8(mQ3)*power10(mU3) + 19800*pow2(logQ3mq)*pow8(mQ3)*power10( mU3)
-         + 3780*logQ3U3*pow2(logQ3mq)*pow8(mQ3)*power10(mU3) -
-         364510*pow2(logQ3U3)*pow8(mQ3)*power10(mU3) - 63552*lmQ3MR*
-         pow2(logQ3U3)*pow8(mQ3)*power10(mU3) - 16200*logQ3mq*
-         pow2(logQ3U3)*pow8(mQ3)*power10(mU3) + 58647*pow3(logQ3U3
-         )*pow8(mQ3)*power10(mU3)))/(36.*mQ32*(-msq2 +
-         mU32)*pow4(mU3)*pow7(mQ32 - mU32))+ (2*Xt5*(88*mU32*dilog(1 -
-         mU32/mQ32)*pow12(mQ3) + 48*mU32*logQ3U3* pow12(mQ3) - 32*mU32*dilog(1
-         - mU32/mQ32)*logQ3U3*pow12(mQ3) + 48*mU32*logU3Q3*pow12(mQ3) -
-         24*mU32*logQ3U3*logU3Q3*pow12(mQ3) + 6848*mQ32*pow12(mU3) -
-         4416*lmQ3MR*mQ32*pow12(mU3) - 120*mQ32*dilog(1 - msq2/mU32)*pow12(mU3)
-         + 612*mQ32*dilog(1 - mU32/ mQ32)*pow12(mU3) - 120*mQ32*dilog(1 -
-         mU32/msq2)*pow12(mU3) - 160*mQ32* logQ3mq*pow12(mU3) +
-         11408*mQ32*logQ3U3*pow12(mU3) - 5536*lmQ3MR*mQ32*logQ3U3*pow12(mU3) -
-         60*mQ32*dilog(1 - msq2/ mU32)*logQ3U3*pow12(mU3) + 562*mQ32*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow12(mU3) - 60*mQ32*dilog(1 - mU32/msq2)*logQ3U3*
-         pow12(mU3) + 40*mQ32*logQ3mq*logQ3U3*pow12(mU3) + 112*
-         mQ32*logU3Q3*pow12(mU3) + 56*mQ32*logQ3U3*logU3Q3* pow12(mU3) +
-         480*mQ32*logU3mq*pow12(mU3) + 240*mQ32*logQ3U3*logU3mq*pow12(mU3) -
-         12*dilog(1 - mU32/mQ32)*pow14(mQ3) + 6*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow14(mQ3) + 512*pow14(mU3) - 512*lmQ3MR*pow14(mU3)
-         + 512*logQ3U3*pow14(mU3) - 60*mQ32*pow12( mU3)*pow2(logQ3mq) -
-         30*mQ32*logQ3U3*pow12(mU3)*pow2(logQ3mq) +
-         20*mU32*pow12(mQ3)*pow2(logQ3U3) + 6158*mQ32* pow12(mU3)*pow2(logQ3U3)
-         - 512*lmQ3MR*mQ32*pow12(mU3)*pow2(logQ3U3) +
-         60*mQ32*logQ3mq*pow12(mU3)*pow2(logQ3U3) - 6*pow14(mQ3)*pow2(logQ3U3)
-         - 16*mU32*pow12(mQ3)*pow3(logQ3U3) + 763*mQ32*pow12(mU3)*pow3(logQ3U3)
-         + 3*pow14(mQ3)*pow3( logQ3U3) + 2*mQ32*dilog(1 - mQ32/mU32)*(-2*mQ32 +
-         2*mU32 + (mQ32 + mU32)*logQ3U3)*pow3(mQ32 - mU32)*(-10*mQ32*mU32 +
-         3*pow4(mQ3) - 57*pow4(mU3)) + 960*(mQ32 - mU32)*dilog(1 -
-         msq2/mQ32)*(-2*mQ32 + 2* mU32 + (mQ32 +
-         mU32)*logQ3U3)*pow2(-(mQ3*msq2) + pow3(mQ3))* pow4(mU3) - 720*dilog(1
-         - msq2/mU32)*pow4(msq)*pow4(mU3)*pow6(mQ3) - 2640*dilog(1 -
-         mU32/msq2)*pow4(msq)*pow4(mU3)*pow6(mQ3) + 960*dilog(1 -
-         mU32/msq2)*logQ3U3*pow4(msq)*pow4(mU3)*pow6(mQ3) +
-         720*logQ3mq*logQ3U3*pow4(msq)*pow4(mU3)*pow6(mQ3) -
-         1320*pow2(logQ3mq)*pow4(msq)*pow4(mU3)*pow6(mQ3) + 480*logQ3U3*pow2(
-         logQ3mq)*pow4(msq)*pow4(mU3)*pow6(mQ3) - 360*pow2(logQ3U3
-         )*pow4(msq)*pow4(mU3)*pow6(mQ3) + 480*dilog(1 - msq2/mU32)*pow4(mQ3)*
-         pow4(msq)*pow6(mU3) + 4320*dilog(1 - mU32/msq2)*pow4(mQ3)*pow4(msq)*
-         pow6(mU3) + 120*dilog(1 - msq2/mU32)*logQ3U3*pow4(mQ3)*pow4(msq)
-         *pow6(mU3) + 120*dilog(1 - mU32/msq2)*logQ3U3*pow4(mQ3)*pow4(
-         msq)*pow6(mU3) - 480*logQ3mq*logQ3U3*pow4(mQ3)*pow4(msq)* pow6(mU3) +
-         2160*pow2(logQ3mq)*pow4(mQ3)*pow4(msq)*pow6(mU3) +
-         60*logQ3U3*pow2(logQ3mq)*pow4(mQ3)*pow4(msq)*pow6(mU3) +
-         240*pow2(logQ3U3)*pow4(mQ3)*pow4(msq)*pow6(mU3) -
-         120*logQ3mq*pow2(logQ3U3)*pow4(mQ3)*pow4(msq)*pow6(mU3) +
-         60*pow3(logQ3U3)*pow4(mQ3)*pow4(msq)*pow6(mU3) -
-         5760*msq2*pow6(mQ3)*pow6( mU3) + 1440*msq2*dilog(1 -
-         msq2/mU32)*pow6(mQ3)*pow6(mU3) - 6240*msq2* dilog(1 -
-         mU32/msq2)*pow6(mQ3)*pow6(mU3) + 2880*msq2*logQ3mq*
-         pow6(mQ3)*pow6(mU3) + 1920*msq2*logQ3U3*pow6(mQ3)*pow6(mU3) -
-         2400*msq2*logQ3mq*logQ3U3*pow6(mQ3)*pow6(mU3) + 2880*
-         msq2*logU3mq*pow6(mQ3)*pow6(mU3) - 3120*msq2*pow2(logQ3mq
-         )*pow6(mQ3)*pow6(mU3) + 1680*msq2*pow2(logQ3U3)*pow6(mQ3)*pow6( mU3) +
-         480*mU32*dilog(1 - msq2/mU32)*pow4(msq)*pow8(mQ3) + 480*mU32* dilog(1
-         - mU32/msq2)*pow4(msq)*pow8(mQ3) - 120*mU32*dilog(1 - msq2/
-         mU32)*logQ3U3*pow4(msq)*pow8(mQ3) - 120*mU32*dilog(1 - mU32/
-         msq2)*logQ3U3*pow4(msq)*pow8(mQ3) -
-         480*mU32*logQ3mq*logQ3U3*pow4(msq)*pow8(mQ3) +
-         240*mU32*pow2(logQ3mq)*pow4( msq)*pow8(mQ3) -
-         60*mU32*logQ3U3*pow2(logQ3mq)*pow4(msq)* pow8(mQ3) +
-         240*mU32*pow2(logQ3U3)*pow4(msq)*pow8(mQ3) + 120*
-         mU32*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow8(mQ3) - 60*mU32*
-         pow3(logQ3U3)*pow4(msq)*pow8(mQ3) + 1920*msq2*pow4(mU3)*pow8( mQ3) -
-         960*msq2*dilog(1 - msq2/mU32)*pow4(mU3)*pow8(mQ3) + 2880*msq2* dilog(1
-         - mU32/msq2)*pow4(mU3)*pow8(mQ3) - 2880*msq2*logQ3U3*
-         pow4(mU3)*pow8(mQ3) + 240*msq2*dilog(1 - msq2/mU32)*logQ3U3*
-         pow4(mU3)*pow8(mQ3) - 1680*msq2*dilog(1 - mU32/msq2)*logQ3U3*
-         pow4(mU3)*pow8(mQ3) + 1440*msq2*logQ3mq*logQ3U3*pow4(mU3) *pow8(mQ3) -
-         1920*msq2*logU3mq*pow4(mU3)*pow8(mQ3) + 480*msq2*
-         logQ3U3*logU3mq*pow4(mU3)*pow8(mQ3) +
-         1440*msq2*pow2(logQ3mq)*pow4(mU3)*pow8(mQ3) -
-         840*msq2*logQ3U3*pow2(logQ3mq)*pow4(mU3)*pow8(mQ3) -
-         240*msq2*logQ3mq*pow2(logQ3U3)*pow4(mU3)*pow8(mQ3) +
-         120*msq2*pow3(logQ3U3)*pow4( mU3)*pow8(mQ3) -
-         32000*pow6(mU3)*pow8(mQ3) + 25728*lmQ3MR*pow6(mU3)* pow8(mQ3) +
-         480*dilog(1 - msq2/mU32)*pow6(mU3)*pow8(mQ3) - 2160*dilog(1 -
-         mU32/mQ32)*pow6(mU3)*pow8(mQ3) + 4320*dilog(1 - mU32/msq2)*pow6(mU3)*
-         pow8(mQ3) + 640*logQ3mq*pow6(mU3)*pow8(mQ3) +
-         8672*logQ3U3*pow6(mU3)*pow8(mQ3) -
-         19840*lmQ3MR*logQ3U3*pow6(mU3)*pow8( mQ3) - 120*dilog(1 -
-         msq2/mU32)*logQ3U3*pow6(mU3)*pow8(mQ3) - 400*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow6(mU3)*pow8(mQ3) - 120* dilog(1 -
-         mU32/msq2)*logQ3U3*pow6(mU3)*pow8(mQ3) -
-         3520*logQ3mq*logQ3U3*pow6(mU3)*pow8(mQ3) - 160*logU3Q3*
-         pow6(mU3)*pow8(mQ3) + 112*logQ3U3*logU3Q3*pow6(mU3)*pow8( mQ3) -
-         1920*logU3mq*pow6(mU3)*pow8(mQ3) + 480*logQ3U3*
-         logU3mq*pow6(mU3)*pow8(mQ3) + 2160*pow2(logQ3mq)*pow6( mU3)*pow8(mQ3)
-         - 60*logQ3U3*pow2(logQ3mq)*pow6(mU3)*pow8( mQ3) +
-         9256*pow2(logQ3U3)*pow6(mU3)*pow8(mQ3) + 896*lmQ3MR*pow2(
-         logQ3U3)*pow6(mU3)*pow8(mQ3) -
-         40*logQ3mq*pow2(logQ3U3)*pow6(mU3)*pow8(mQ3) -
-         212*pow3(logQ3U3)*pow6(mU3)*pow8( mQ3) + 5760*msq2*pow4(mQ3)*pow8(mU3)
-         - 960*msq2*dilog(1 - msq2/mU32)* pow4(mQ3)*pow8(mU3) +
-         2880*msq2*dilog(1 - mU32/msq2)*pow4(mQ3)*pow8( mU3) -
-         3840*msq2*logQ3mq*pow4(mQ3)*pow8(mU3) +
-         2880*msq2*logQ3U3*pow4(mQ3)*pow8(mU3) - 240*msq2*dilog(1 -
-         msq2/mU32)*logQ3U3*pow4(mQ3)*pow8(mU3) + 1680*msq2*dilog(1 -
-         mU32/msq2)*logQ3U3*pow4(mQ3)*pow8(mU3) + 480*msq2*logQ3mq*logQ3U3
-         *pow4(mQ3)*pow8(mU3) - 1920*msq2*logU3mq*pow4(mQ3)*pow8(mU3) -
-         480*msq2*logQ3U3*logU3mq*pow4(mQ3)*pow8(mU3) + 1440*msq2*
-         pow2(logQ3mq)*pow4(mQ3)*pow8(mU3) + 840*msq2*logQ3U3*
-         pow2(logQ3mq)*pow4(mQ3)*pow8(mU3) - 960*msq2*pow2(logQ3U3
-         )*pow4(mQ3)*pow8(mU3) + 240*msq2*logQ3mq*pow2(logQ3U3)*
-         pow4(mQ3)*pow8(mU3) - 120*msq2*pow3(logQ3U3)*pow4(mQ3)*pow8(mU3) -
-         120*mQ32*dilog(1 - msq2/mU32)*pow4(msq)*pow8(mU3) - 2040*mQ32*dilog(1
-         - mU32/msq2)*pow4(msq)*pow8(mU3) - 60*mQ32*dilog(1 -
-         msq2/mU32)*logQ3U3*pow4(msq)*pow8(mU3) - 1020*mQ32*dilog(1 -
-         mU32/msq2)*logQ3U3*pow4(msq)*pow8(mU3) + 120*mQ32*logQ3mq*logQ3U3
-         *pow4(msq)*pow8(mU3) - 1020*mQ32*pow2(logQ3mq)*pow4(msq)*pow8( mU3) -
-         510*mQ32*logQ3U3*pow2(logQ3mq)*pow4(msq)*pow8(mU3) -
-         60*mQ32*pow2(logQ3U3)*pow4(msq)*pow8(mU3) +
-         60*mQ32*logQ3mq*pow2(logQ3U3)*pow4(msq)*pow8(mU3) -
-         30*mQ32*pow3(logQ3U3)*pow4(msq)*pow8(mU3) + 48256*pow6(mQ3)*pow8(mU3)
-         - 37120*lmQ3MR* pow6(mQ3)*pow8(mU3) - 720*dilog(1 -
-         msq2/mU32)*pow6(mQ3)*pow8(mU3) + 3500*dilog(1 -
-         mU32/mQ32)*pow6(mQ3)*pow8(mU3) - 2640*dilog(1 - mU32/
-         msq2)*pow6(mQ3)*pow8(mU3) - 960*logQ3mq*pow6(mQ3)*pow8(mU3) +
-         14240*logQ3U3*pow6(mQ3)*pow8(mU3) + 8512*lmQ3MR*logQ3U3*
-         pow6(mQ3)*pow8(mU3) + 1490*dilog(1 - mU32/mQ32)*logQ3U3*pow6(
-         mQ3)*pow8(mU3) - 960*dilog(1 - mU32/msq2)*logQ3U3*pow6(mQ3)* pow8(mU3)
-         + 1680*logQ3mq*logQ3U3*pow6(mQ3)*pow8(mU3) +
-         480*logU3Q3*pow6(mQ3)*pow8(mU3) -
-         48*logQ3U3*logU3Q3*pow6(mQ3)*pow8(mU3) +
-         2880*logU3mq*pow6(mQ3)*pow8(mU3) -
-         1320*pow2(logQ3mq)*pow6(mQ3)*pow8(mU3) - 480*logQ3U3*
-         pow2(logQ3mq)*pow6(mQ3)*pow8(mU3) - 9730*pow2(logQ3U3)*
-         pow6(mQ3)*pow8(mU3) + 5056*lmQ3MR*pow2(logQ3U3)*pow6(mQ3)*pow8( mU3) +
-         800*logQ3mq*pow2(logQ3U3)*pow6(mQ3)*pow8(mU3) -
-         2695*pow3(logQ3U3)*pow6(mQ3)*pow8(mU3) + 240*msq2*mU32*dilog(1 -
-         msq2/mU32)*power10(mQ3) + 240*msq2*mU32*dilog(1 - mU32/msq2)*power10(
-         mQ3) - 480*msq2*mU32*logQ3mq*power10(mQ3) +
-         480*msq2*mU32*logQ3U3*power10(mQ3) - 120*msq2*mU32*dilog(1 -
-         msq2/mU32)*logQ3U3*power10(mQ3) - 120*msq2*mU32*dilog(1 -
-         mU32/msq2)*logQ3U3* power10(mQ3) + 480*msq2*mU32*logU3mq*power10(mQ3)
-         - 240*msq2* mU32*logQ3U3*logU3mq*power10(mQ3) + 120*msq2*mU32*pow2(
-         logQ3mq)*power10(mQ3) -
-         60*msq2*mU32*logQ3U3*pow2(logQ3mq)*power10(mQ3) -
-         120*msq2*mU32*pow2(logQ3U3)*power10( mQ3) +
-         120*msq2*mU32*logQ3mq*pow2(logQ3U3)*power10(mQ3) -
-         60*msq2*mU32*pow3(logQ3U3)*power10(mQ3) - 120*dilog(1 - msq2/
-         mU32)*pow4(msq)*power10(mQ3) - 120*dilog(1 - mU32/msq2)*pow4(msq)*
-         power10(mQ3) + 60*dilog(1 - msq2/mU32)*logQ3U3*pow4(msq)* power10(mQ3)
-         + 60*dilog(1 - mU32/msq2)*logQ3U3*pow4(msq)* power10(mQ3) +
-         120*logQ3mq*logQ3U3*pow4(msq)*power10(mQ3) -
-         60*pow2(logQ3mq)*pow4(msq)*power10(mQ3) + 30*logQ3U3*
-         pow2(logQ3mq)*pow4(msq)*power10(mQ3) - 60*pow2(logQ3U3)*
-         pow4(msq)*power10(mQ3) - 60*logQ3mq*pow2(logQ3U3)*pow4(
-         msq)*power10(mQ3) + 30*pow3(logQ3U3)*pow4(msq)*power10(mQ3) +
-         7872*pow4(mU3)*power10(mQ3) - 6592*lmQ3MR*pow4(mU3)*power10(mQ3) -
-         120* dilog(1 - msq2/mU32)*pow4(mU3)*power10(mQ3) + 380*dilog(1 -
-         mU32/mQ32)* pow4(mU3)*power10(mQ3) - 2040*dilog(1 -
-         mU32/msq2)*pow4(mU3)*power10( mQ3) -
-         160*logQ3mq*pow4(mU3)*power10(mQ3) - 6448*logQ3U3*
-         pow4(mU3)*power10(mQ3) + 8544*lmQ3MR*logQ3U3*pow4(mU3)*power10( mQ3) +
-         60*dilog(1 - msq2/mU32)*logQ3U3*pow4(mU3)*power10(mQ3) - 10*dilog(1 -
-         mU32/mQ32)*logQ3U3*pow4(mU3)*power10(mQ3) + 1020* dilog(1 -
-         mU32/msq2)*logQ3U3*pow4(mU3)*power10(mQ3) +
-         1800*logQ3mq*logQ3U3*pow4(mU3)*power10(mQ3) - 80*logU3Q3*
-         pow4(mU3)*power10(mQ3) - 8*logQ3U3*logU3Q3*pow4(mU3)* power10(mQ3) +
-         480*logU3mq*pow4(mU3)*power10(mQ3) -
-         240*logQ3U3*logU3mq*pow4(mU3)*power10(mQ3) -
-         1020*pow2(logQ3mq)*pow4(mU3)*power10(mQ3) + 510*logQ3U3*pow2(logQ3mq)
-         *pow4(mU3)*power10(mQ3) - 1574*pow2(logQ3U3)*pow4(mU3)*power10( mQ3) -
-         2496*lmQ3MR*pow2(logQ3U3)*pow4(mU3)*power10(mQ3) - 860*
-         logQ3mq*pow2(logQ3U3)*pow4(mU3)*power10(mQ3) + 1161*pow3(
-         logQ3U3)*pow4(mU3)*power10(mQ3) - 1920*mQ32*msq2*power10(mU3) +
-         240*mQ32*msq2*dilog(1 - msq2/mU32)*power10(mU3) +
-         240*mQ32*msq2*dilog(1 - mU32/msq2)*power10(mU3) +
-         1440*mQ32*msq2*logQ3mq*power10(mU3) -
-         2400*mQ32*msq2*logQ3U3*power10(mU3) + 120*mQ32*msq2*dilog(1 -
-         msq2/mU32)*logQ3U3*power10(mU3) + 120*mQ32*msq2*dilog(1 - mU32/
-         msq2)*logQ3U3*power10(mU3) +
-         480*mQ32*msq2*logQ3mq*logQ3U3*power10(mU3) +
-         480*mQ32*msq2*logU3mq*power10(mU3) +
-         240*mQ32*msq2*logQ3U3*logU3mq*power10(mU3) + 120*mQ32*
-         msq2*pow2(logQ3mq)*power10(mU3) + 60*mQ32*msq2*logQ3U3*
-         pow2(logQ3mq)*power10(mU3) - 600*mQ32*msq2*pow2(logQ3U3)* power10(mU3)
-         - 120*mQ32*msq2*logQ3mq*pow2(logQ3U3)* power10(mU3) +
-         60*mQ32*msq2*pow3(logQ3U3)*power10(mU3) - 31488*
-         pow4(mQ3)*power10(mU3) + 22912*lmQ3MR*pow4(mQ3)*power10(mU3) + 480*
-         dilog(1 - msq2/mU32)*pow4(mQ3)*power10(mU3) - 2408*dilog(1 -
-         mU32/mQ32) *pow4(mQ3)*power10(mU3) + 480*dilog(1 -
-         mU32/msq2)*pow4(mQ3)*power10( mU3) +
-         640*logQ3mq*pow4(mQ3)*power10(mU3) - 28432*logQ3U3
-         *pow4(mQ3)*power10(mU3) + 8320*lmQ3MR*logQ3U3*pow4(mQ3)*power10( mU3)
-         + 120*dilog(1 - msq2/mU32)*logQ3U3*pow4(mQ3)*power10(mU3) -
-         1616*dilog(1 - mU32/mQ32)*logQ3U3*pow4(mQ3)*power10(mU3) + 120*
-         dilog(1 - mU32/msq2)*logQ3U3*pow4(mQ3)*power10(mU3) -
-         400*logU3Q3*pow4(mQ3)*power10(mU3) - 88*logQ3U3*logU3Q3*
-         pow4(mQ3)*power10(mU3) - 1920*logU3mq*pow4(mQ3)*power10(mU3) -
-         480*logQ3U3*logU3mq*pow4(mQ3)*power10(mU3) + 240*pow2(
-         logQ3mq)*pow4(mQ3)*power10(mU3) +
-         60*logQ3U3*pow2(logQ3mq)*pow4(mQ3)*power10(mU3) -
-         4124*pow2(logQ3U3)*pow4( mQ3)*power10(mU3) -
-         2944*lmQ3MR*pow2(logQ3U3)*pow4(mQ3)*power10( mU3) +
-         40*logQ3mq*pow2(logQ3U3)*pow4(mQ3)*power10(mU3) +
-         1508*pow3(logQ3U3)*pow4(mQ3)*power10(mU3)))/(3.*mQ32*pow3(mU3)*
-         pow7(mQ32 - mU32))+ (1280*mU32*Xt6*(-2*mQ32 + 2*mU32 + (mQ32 +
-         mU32)*logQ3U3)*pow2(- mQ32 + mU32 + mQ32*logQ3U3))/(3.*pow7(mQ32 -
-         mU32));
-      }
+   // The corrections are polynomials in Xt of at most 4th degree.
+   // Determine the coefficients from the values at
+   // Xt/scale = -2, -1, 0, 1, 2.
+   const double scale = std::sqrt(std::sqrt(p.mq2(2,2)*p.mu2(2,2)));
+   Poly ytas(5), ytas2(5), lambdaat(5), lambdaatas(5);
+   ThresholdCalculator tc(*this);
 
-      case Limits::MQ3_EQ_MU3_EQ_M3: {
-         const double logQ3mq = std::log(mQ32/msq2);
-         const double logmqQ3 = -logQ3mq;
-
-         return
-         (Xt4*(10990*msq2*pow4(mQ3) - 296*lmQ3MR*msq2*pow4(mQ3) - 2724*
-         msq2*logQ3mq*pow4(mQ3) - 480*lmQ3MR*msq2*logQ3mq*pow4(mQ3) - 1044*
-         msq2*logmqQ3*pow4(mQ3) - 312*msq2*pow2(lmQ3MR)*pow4(mQ3) + 612*
-         msq2*pow2(logQ3mq)*pow4(mQ3) - 432*mQ32*logQ3mq*pow4(msq) -
-         432*mQ32*logmqQ3*pow4(msq) + 279*mQ32*pow2(logQ3mq)* pow4(msq) -
-         10990*pow6(mQ3) + 296*lmQ3MR*pow6(mQ3) + 1200*logQ3mq*pow6(mQ3) +
-         480*lmQ3MR*logQ3mq*pow6(mQ3) + 312*pow2( lmQ3MR)*pow6(mQ3) -
-         81*pow2(logQ3mq)*pow6(mQ3) + 18*dilog(1 -
-         mQ32/msq2)*(28*msq2*pow4(mQ3) + 31*mQ32*pow4(msq) + 31*pow6(mQ3) - 90*
-         pow6(msq)) + 2676*logQ3mq*pow6(msq) + 2676*logmqQ3*pow6( msq) -
-         810*pow2(logQ3mq)*pow6(msq) - 18*dilog(1 - msq2/mQ32)*(-
-         68*msq2*pow4(mQ3) - 31*mQ32*pow4(msq) + 9*pow6(mQ3) +
-         90*pow6(msq))))/( 27.*(mQ32 - msq2)*pow8(mQ3))
-         -(Xt5*(2176*msq2*pow4(mQ3) - 11264*lmQ3MR*msq2*pow4(mQ3) - 3744*msq2*
-         logQ3mq*pow4(mQ3) + 2016*msq2*logmqQ3*pow4(mQ3) + 2331*msq2*
-         pow2(logQ3mq)*pow4(mQ3) - 47232*mQ32*logQ3mq*pow4(msq) -
-         47232*mQ32*logmqQ3*pow4(msq) + 14085*mQ32*pow2(logQ3mq)* pow4(msq) -
-         2176*pow6(mQ3) + 11264*lmQ3MR*pow6(mQ3) - 1920*logQ3mq* pow6(mQ3) -
-         1449*pow2(logQ3mq)*pow6(mQ3) + 52896*logQ3mq*pow6(msq) +
-         52896*logmqQ3*pow6(msq) - 14967*pow2(logQ3mq)* pow6(msq) - 18*dilog(1
-         - mQ32/msq2)*(-259*msq2*pow4(mQ3) - 1565* mQ32*pow4(msq) +
-         161*pow6(mQ3) + 1663*pow6(msq)) - 18*dilog(1 - msq2/
-         mQ32)*(-259*msq2*pow4(mQ3) - 1565*mQ32*pow4(msq) + 161*pow6(mQ3) +
-         1663*pow6(msq))))/(216.*(mQ32 - msq2)*pow9(mQ3))+
-         (160*Xt6)/(9.*pow6(mQ3));
-      }
+   // mass limit
+   switch (limit) {
+   case Limits::MQ3_EQ_MU3: tc.p.mu2(2,2) = p.mq2(2,2); break;
+   case Limits::MQ3_EQ_M3: tc.p.MG = std::sqrt(p.mq2(2,2)); break;
+   case Limits::MU3_EQ_M3: tc.p.MG = std::sqrt(p.mu2(2,2)); break;
+   case Limits::MQ3_EQ_MU3_EQ_M3: tc.p.mu2(2,2) = p.mq2(2,2); tc.p.MG = std::sqrt(p.mq2(2,2)); break;
+   case Limits::DEGENERATE: tc.p.mu2(2,2) = tc.msq2 = p.mq2(2,2); tc.p.MG = std::sqrt(p.mq2(2,2)); break;
+   default: break;
+   }
 
-      case Limits::DEGENERATE: {
-         return (2*Xt4*(-5735 + 148*lmQ3MR + 156*pow2(lmQ3MR)))/(27.*pow4(mQ3))+
-         (-176*(-7 + 8*lmQ3MR)*Xt5)/(27.*pow5(mQ3))
-         +160/(9.*pow6(mQ3))*Xt6;
-      }
+   for (int k = 0; k < 5; k++) {
+      tc.p.Au(2,2) = (k - 2)*scale + p.mu/calcTanBeta();
+      ytas(k) = tc.getDeltaYtAlphas(limit, omitLogs);
+      ytas2(k) = tc.getDeltaYtAlphas2(limit, omitLogs);
+      lambdaat(k) = tc.getDeltaLambdaAlphat(limit, omitLogs);
+      lambdaatas(k) = tc.getDeltaLambdaAlphatAlphas(limit, omitLogs)
+         - 4*ytas(k)*lambdaat(k);
+   }
 
-      default:
-         break;
+   const auto coefficients = [] (const Poly& f) {
+      const double even1 = 0.5*(f(3) + f(1)) - f(2);
+      const double even2 = 0.5*(f(4) + f(0)) - f(2);
+      const double odd1 = 0.5*(f(3) - f(1));
+      const double odd2 = 0.5*(f(4) - f(0));
+      const double c4 = (even2 - 4*even1)/12;
+      const double c3 = (odd2 - 2*odd1)/6;
+      Poly c(5);
+      c << f(2), odd1 - c3, even1 - c4, c3, c4;
+      return c;
    };
 
-   throw std::runtime_error("Mass limit not included!");
-}
+   const Poly cy = coefficients(ytas);
+   const Poly cy2 = coefficients(ytas2);
+   const Poly cl = coefficients(lambdaat);
+   const Poly cls = coefficients(lambdaatas);
+   const Poly cg = Poly::Constant(1, tc.getDeltaG3Alphas(omitLogs));
 
+   const Poly shift = 2*add(mul(cl, add(3*mul(cy, cy), 2*cy2)),
+                            mul(cls, add(cg, 2*cy)));
+
+   return -shift(xtOrder)*std::pow(calcXt()/scale, xtOrder);
+}
 
 /**
  * Sets the mass limit to check terms
-- 
2.43.0


From 51518b41376a155d57ec9951ec1f08e3aa7c12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:50 +0000
Subject: [PATCH 36/44] fix: two-loop yb^6, yt^6, ytau^6, yt^2*yb^4, yt^4*yb^2
 thresholds near mass thresholds and for degenerate masses

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 55 ++++++++++++++-----
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f55dfd3..d251cc4 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -41,6 +41,23 @@ namespace {
          *m2[i] = std::max(*m2[i], 1.02*(*m2[i - 1]));
    }
 
+   /// moves mA2 away from the thresholds mA = m1 +- m2, where the
+   /// expressions are numerically unstable
+   void shift_from_thresholds(double& mA2, const std::vector<double>& m2)
+   {
+      const double eps = 2e-4;
+
+      for (const double x: m2) {
+         for (const double y: m2) {
+            for (const double sign: {-1., 1.}) {
+               const double threshold = std::sqrt(x) + sign*std::sqrt(y);
+               const double th2 = threshold*threshold;
+               if (std::abs(mA2 - th2) < eps*th2) mA2 = th2*(1 + eps);
+            }
+         }
+      }
+   }
+
 /// threshold loop functions from [1504.05200] Eq.(14)
 double f1HD(double x) noexcept
 {
@@ -1136,7 +1153,9 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    const double mQ3 = std::sqrt(mQ32);
    const double mD3 = std::sqrt(mD32);
    const double Mu = std::sqrt(Mu2);
-   const double mA = p.MA;
+   double mA2 = pow2(p.MA);
+   shift_from_thresholds(mA2, {mQ32, mD32});
+   const double mA = std::sqrt(mA2);
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    // the corrections are invariant under a simultaneous sign change of mu and
@@ -1145,7 +1164,6 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    const double Xb = sgn*calcXb();
    const double Yb = sgn*calcYb();
    const double Xb2 = pow2(Xb);
-   const double mA2 = pow2(mA);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
 
@@ -1426,7 +1444,6 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double MR2 = pow2(p.scale);
    double mQ32 = p.mq2(2,2);
    double mU32 = p.mu2(2,2);
-   const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    const double Xt = calcXt();
@@ -1434,7 +1451,7 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt2 = pow2(Xt);
    const double Xt4 = pow2(Xt2);
    const double Xt6 = pow3(Xt2);
-   const double mA2 = pow2(mA);
+   double mA2 = pow2(p.MA);
 
    if (is_equal_rel(mQ32, mU32, 0.1) &&
        (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
@@ -1445,10 +1462,13 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double shift = mU32 > mQ32 ? -0.02 : 0.02;
    mQ32 = p.mq2(2,2) * (1 + shift);
    mU32 = p.mu2(2,2) * (1 - shift);
+   double Mu2 = pow2(p.mu) * 1.03;
+   shift_apart({&mQ32, &mU32, &Mu2});
+   shift_from_thresholds(mA2, {mQ32, mU32});
+   const double mA = std::sqrt(mA2);
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
-   const double Mu = p.mu * std::sqrt(1.03);
-   const double Mu2 = pow2(Mu);
+   const double Mu = std::copysign(std::sqrt(Mu2), p.mu);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR = omitLogs*std::log(Mu2 / MR2);
 
@@ -1822,16 +1842,21 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
-   const double MR2 = pow2(p.scale);
+   double MR2 = pow2(p.scale);
    double mL32 = p.ml2(2,2);
    double mE32 = p.me2(2,2);
    double Mu2 = pow2(p.mu);
    shift_apart({&mL32, &mE32, &Mu2});
+   // use the slepton mass as unit to avoid cancellations among large logarithms
+   const double unit2 = mL32;
+   double mA2 = pow2(p.MA);
+   shift_from_thresholds(mA2, {mL32, mE32});
+   for (double* m2: {&MR2, &mL32, &mE32, &Mu2, &mA2}) *m2 /= unit2;
    const double lMR = omitLogs*log(MR2) + (1 - omitLogs)*log(mL32);
    const double mL3 = std::sqrt(mL32);
    const double mE3 = std::sqrt(mE32);
    const double Mu = std::sqrt(Mu2);
-   const double mA = p.MA;
+   const double mA = std::sqrt(mA2);
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    const double sbe = sbeta;
@@ -1839,8 +1864,8 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    // the corrections are invariant under a simultaneous sign change of mu and
    // all trilinear couplings; the expressions below are valid for mu > 0
    const double sgn = p.mu < 0 ? -1. : 1.;
-   const double Xtau = sgn*calcXtau();
-   const double Ytau = sgn*calcYtau();
+   const double Xtau = sgn*calcXtau()/std::sqrt(unit2);
+   const double Ytau = sgn*calcYtau()/std::sqrt(unit2);
 
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
@@ -2235,7 +2260,9 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double mD3 = std::sqrt(mD32);
    const double mU3 = std::sqrt(mU32);
    const double Mu = std::sqrt(Mu2);
-   const double mA = p.MA;
+   double mA2 = pow2(p.MA);
+   shift_from_thresholds(mA2, {mQ32, mD32, mU32});
+   const double mA = std::sqrt(mA2);
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    // the corrections are invariant under a simultaneous sign change of mu and
@@ -2246,7 +2273,6 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double Xb = sgn*calcXb();
    const double Yb = sgn*calcYb();
    const double Xt2 = pow2(Xt);
-   const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
@@ -2609,7 +2635,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double mD3 = std::sqrt(mD32);
    const double mU3 = std::sqrt(mU32);
    const double Mu = std::sqrt(Mu2);
-   const double mA = p.MA;
+   double mA2 = pow2(p.MA);
+   shift_from_thresholds(mA2, {mQ32, mD32, mU32});
+   const double mA = std::sqrt(mA2);
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    // the corrections are invariant under a simultaneous sign change of mu and
@@ -2621,7 +2649,6 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double Yb = sgn*calcYb();
    const double Xt2 = pow2(Xt);
    const double Xt4 = pow2(Xt2);
-   const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR  = omitLogs*std::log(Mu2 / MR2);
-- 
2.43.0


From fce068f400579cc0f6c65784fde45fe40b67cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:19 +0000
Subject: [PATCH 37/44] fix: counterterm of the sfermion masses in the two-loop
 correction in the MDR' scheme

The corrections of O(at*as) in the MDR' scheme were those of the DR'
scheme, expressed by the MDR' masses. The conversion of the masses in the
correction of O(at) was not compensated, so the shift between the schemes
was not of higher order for the hierarchies h6 and h6b.
---
 include/himalaya/HierarchyCalculator.hpp |  8 ++++++
 source/himalaya/HierarchyCalculator.cpp  | 33 ++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/include/himalaya/HierarchyCalculator.hpp b/include/himalaya/HierarchyCalculator.hpp
index 23c7648..c9af465 100644
--- a/include/himalaya/HierarchyCalculator.hpp
+++ b/include/himalaya/HierarchyCalculator.hpp
@@ -118,6 +118,14 @@ namespace himalaya {
        * @returns A bool if the hierarchy candidate is suitable to the given mass spectrum.
        */
       bool isHierarchySuitable(const HierarchyObject& ho) const;
+      /**
+       * Calculates the loop corrected Higgs mass matrix at the order O(alpha_x) for given sfermion masses.
+       * @param ho a HierarchyObject with constant isAlphab.
+       * @param Mst1 mass of the lighter sfermion
+       * @param Mst2 mass of the heavier sfermion
+       * @return The loop corrected Higgs mass matrix at the order O(alpha_x).
+       */
+      Eigen::Matrix2d calcMt41L(const HierarchyObject& ho, double Mst1, double Mst2) const;
       /**
        * Shifts the H3m renormalization scheme to DR' scheme
        * @param ho a HierarchyObject with constant isAlphab
diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 953cfca..abc0e27 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -1156,13 +1156,27 @@ Eigen::Matrix2d HierarchyCalculator::getMt41L(
    const himalaya::HierarchyObject& ho,
    unsigned shiftOneLoop,
    unsigned shiftTwoLoop) const
+{
+   return calcMt41L(ho, shiftMst1ToMDR(ho, shiftOneLoop, shiftTwoLoop),
+                    shiftMst2ToMDR(ho, shiftOneLoop, shiftTwoLoop));
+}
+
+/**
+ * Calculates the loop corrected Higgs mass matrix at the order O(alpha_x) for given sfermion masses.
+ * @param ho a HierarchyObject with constant isAlphab.
+ * @param Mst1 mass of the lighter sfermion
+ * @param Mst2 mass of the heavier sfermion
+ * @return The loop corrected Higgs mass matrix at the order O(alpha_x).
+ */
+Eigen::Matrix2d HierarchyCalculator::calcMt41L(
+   const himalaya::HierarchyObject& ho,
+   double Mst1,
+   double Mst2) const
 {
    using std::log;
 
    Eigen::Matrix2d Mt41L;
    const double beta = calcBeta();
-   const double Mst1 = shiftMst1ToMDR(ho, shiftOneLoop, shiftTwoLoop);
-   const double Mst2 = shiftMst2ToMDR(ho, shiftOneLoop, shiftTwoLoop);
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    const double Mt = ho.getIsAlphab() ? p.Mb : p.Mt;
@@ -1246,6 +1260,21 @@ HierarchyCalculator::getMt42L(const himalaya::HierarchyObject& ho,
       Mt2, MG, Mst12, Mst22, st, ct, scale2, mu, tanb, v2, g3,
       include_heavy_higgs);
 
+   // the conversion of the sfermion masses in the one-loop correction
+   // generates a counterterm of the order O(alpha_x*alpha_s)
+   if (shiftOneLoop != 0) {
+      const double dMst12 = pow2(shiftMst1ToMDR(ho, shiftOneLoop, 0))
+         - pow2(shiftMst1ToMDR(ho, 0, 0));
+      const double dMst22 = pow2(shiftMst2ToMDR(ho, shiftOneLoop, 0))
+         - pow2(shiftMst2ToMDR(ho, 0, 0));
+      // step size of the numerical derivative in the direction of the shift
+      const double eps = 1e-3/std::max(std::abs(dMst12)/Mst12, std::abs(dMst22)/Mst22);
+      if (std::isfinite(eps)) {
+         Mt42L -= (calcMt41L(ho, std::sqrt(Mst12 + eps*dMst12), std::sqrt(Mst22 + eps*dMst22))
+            - calcMt41L(ho, std::sqrt(Mst12 - eps*dMst12), std::sqrt(Mst22 - eps*dMst22)))/(2*eps);
+      }
+   }
+
    return Mt42L;
 }
 
-- 
2.43.0


From 35ad132b49ce6feb4965f6362f75a8e92d0d1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:25 +0000
Subject: [PATCH 38/44] fix: bottom-quark parameters in the shift from H3m to
 DR' of O(ab*as^2)

The three-loop shift for bottom quarks combined the sbottom masses with
the top mass and the mixing of the stops.
---
 source/himalaya/HierarchyCalculator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index abc0e27..0f9a18a 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -958,7 +958,7 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double Mst2 = shiftMst2ToMDR(ho, ho.getMDRFlag(), ho.getMDRFlag());
    // Hierarchy h4 only covers O(Xt^0)
    const double Xt = suitableHierarchy == himalaya::hierarchies::Hierarchies::h4
-     ? 0 : p.Au(2,2) - p.mu / tb;
+     ? 0 : ho.getIsAlphab() ? p.Ad(2,2) - p.mu * tb : p.Au(2,2) - p.mu / tb;
 
    // threshold for degenerate squark mass case is 1% of the stop mass
    const double eps = Mst1 * 0.01;
@@ -1042,8 +1042,9 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    }
 
    // pre-factor of shift -> checked normalization against H3m normalization and they coincide
-   const double yt = sqrt2 * p.Mt / p.vu;
-   const double prefac = threeLoop * pow2(pow2(p.g3) * p.Mt * yt);
+   const double Mf = ho.getIsAlphab() ? p.Mb : p.Mt;
+   const double yf = sqrt2 * Mf / p.vu;
+   const double prefac = threeLoop * pow2(pow2(p.g3) * Mf * yf);
 
    return prefac * shift;
 }
-- 
2.43.0


From cd92d80fd4ddc8f92a0c826da260708a4f18177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 39/44] fix: squark contributions to the threshold corrections
 of the Yukawa couplings

The wave-function renormalization of the Higgs boson from loops of squarks
enters every Yukawa coupling as -cos(beta)^2*Xb^2*F5/(4*mQ3*mD3) (sbottoms)
and -sin(beta)^2*Xt^2*F5/(4*mQ3*mU3) (stops).  The corrections of O(yb) to
yb, yt and ytau and of O(yt) to yb contained wrong powers of sin(beta), terms
of the other order or the parameters of the stops.  With the corrected terms
the two-loop thresholds of O(yb^6, yt^2*yb^4) obey the renormalization group.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 36 +++++++++----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index d251cc4..dc2a4db 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -829,7 +829,7 @@ double ThresholdCalculator::getDeltaYbYb(int omitLogs) const
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
    return (6*lmUMR + 4*F6(mD3/p.mu) + 8*F6(mQ3/p.mu) - (2*Xb2*F5(mQ3/mD3)*pow2(cbeta))/
-        (mD3*mQ3*pow2(sbeta)) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
+        (mD3*mQ3) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
 }
 
 double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
@@ -841,8 +841,6 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    const double MR2 = pow2(p.scale);
    const double mU3 = std::sqrt(p.mu2(2,2));
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mD3 = std::sqrt(p.md2(2,2));
-   const double Xb2 = pow2(calcXb());
    const double Xt = calcXt();
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
    const double lmAMR = omitLogs*std::log(mA2/MR2);
@@ -850,8 +848,7 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    return (2 * lmUMR + 4 * F6(mU3 / p.mu) +
            (4 * tbe * Xt * F9(mQ3 / p.mu, mU3 / p.mu)) / p.mu +
            (-1 + 2 * lmAMR) * pow2(cbeta) -
-           (2 * Xb2 * F5(mQ3 / mD3) * pow2(cbeta)) / (mD3 * mQ3 * pow2(sbeta)) -
-           (4 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
+           (2 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
            8 * (-1 + lmAMR) * pow2(sbeta)) /
           8.;
 }
@@ -870,22 +867,23 @@ double ThresholdCalculator::getDeltaYbAs(int omitLogs) const
 
 double ThresholdCalculator::getDeltaYtYb(int omitLogs) const
 {
-   const double MR2 = pow2(p.scale);
+   const double tbe = calcTanBeta();
    const double cbeta = calcCosBeta();
    const double sbeta = calcSinBeta();
-   const double mD3 = std::sqrt(p.md2(2,2));
+   const double mA2 = pow2(p.MA);
+   const double MR2 = pow2(p.scale);
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
+   const double mD3 = std::sqrt(p.md2(2,2));
    const double Xb = calcXb();
-   const double Xt = calcXt();
-   const double lmAMR = omitLogs*std::log(pow2(p.MA) / MR2);
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
+   const double lmAMR = omitLogs*std::log(mA2/MR2);
 
-   return (-2*p.mu*mU3*pow2(Xb)*F5(mQ3/mD3)*pow2(cbeta)*(1 + pow2(sbeta)) + mD3*pow2(
-        sbeta)*(-2*p.mu*pow2(Xt)*F5(mQ3/mU3)*pow2(sbeta) + mQ3*mU3*(4*p.mu*F6(mD3/p.mu) +
-        4*p.vd/p.vu*Xb*F9(mQ3/p.mu,mD3/p.mu) + p.mu*(2*lmUMR - 8*pow2(cbeta) - pow2(
-        sbeta) + 2*lmAMR*(4*pow2(cbeta) + pow2(sbeta))))))/(8.*mD3*mQ3*
-        p.mu*mU3*pow2(sbeta));
+   return (2 * lmUMR + 4 * F6(mD3 / p.mu) +
+           (4 * Xb * F9(mQ3 / p.mu, mD3 / p.mu)) / (tbe * p.mu) +
+           (-1 + 2 * lmAMR) * pow2(sbeta) -
+           (2 * pow2(Xb) * F5(mQ3 / mD3) * pow2(cbeta)) / (mQ3 * mD3) +
+           8 * (-1 + lmAMR) * pow2(cbeta)) /
+          8.;
 }
 
 double ThresholdCalculator::getDeltaVevYt2(Limits limit) const
@@ -972,12 +970,12 @@ double ThresholdCalculator::getDeltaVevG22(int /* omitLogs */) const
 
 double ThresholdCalculator::getDeltaYtauYb() const
 {
-   const double Xt2 = pow2(calcXt());
+   const double Xb2 = pow2(calcXb());
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
-   const double sbeta = calcSinBeta();
+   const double mD3 = std::sqrt(p.md2(2,2));
+   const double cbeta = calcCosBeta();
 
-   return -(pow2(sbeta)*Xt2*F5(mQ3/mU3))/(4*mQ3*mU3);
+   return -(pow2(cbeta)*Xb2*F5(mQ3/mD3))/(4*mQ3*mD3);
 }
 
 double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
-- 
2.43.0


From 27986370644a0d4e256a0c9feba9bde7d8fdf86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 40/44] fix: factor of tan(beta) in the thresholds of
 O(ytau^4*yb^2, ytau^2*yb^4)

The quartic coupling of sbottoms and staus from F_Hd involves H_d only; the
threshold is proportional to (yb*ytau)^2*cos(beta)^4, without sin(beta).
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index dc2a4db..82a6d38 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -3026,24 +3026,23 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
    const double mL3 = std::sqrt(p.ml2(2,2));
    const double mE3 = std::sqrt(p.me2(2,2));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(cbeta*sbeta*pow4(mL3));
+      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(pow2(cbeta)*pow4(mL3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (-4*Xb*Xtau*(-6*pow2(mL3) + Xtau2)*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(
-        mD32/mQ32)))/(cbeta*(mD32 - mQ32)*sbeta*pow4(mL3));
+        mD32/mQ32)))/(pow2(cbeta)*(mD32 - mQ32)*pow4(mL3));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-24*lmQ3MR*Xb*Xtau*(2*(-mE32 + mL32)*Xtau2 + log(mE32/mL32)*(mL32*Xtau2
-        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(cbeta*sbeta*pow3(
+        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(pow2(cbeta)*pow3(
         mE32 - mL32));
    }
 
@@ -3051,7 +3050,7 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
       = (-24*Xb*Xtau*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(mD32/mQ32))*(2*
         Xtau2*(-pow2(mE3) + pow2(mL3)) + log(pow2(mE3)/pow2(mL3))*(Xtau2*pow2(
         mL3) + pow2(mE3)*(Xtau2 + 2*pow2(mL3)) - pow4(mE3) - pow4(mL3))))/(
-        cbeta*(mD32 - mQ32)*sbeta*pow3(pow2(mE3) - pow2(mL3)));
+        pow2(cbeta)*(mD32 - mQ32)*pow3(pow2(mE3) - pow2(mL3)));
 
    return exact;
 }
@@ -3072,32 +3071,31 @@ double ThresholdCalculator::getDeltaLambdaYtau2Yb4(int omitLogs) const
    const double lmD3MR = omitLogs*std::log(pow2(mD3)/pow2(p.scale));
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(cbeta*sbeta*pow4(mQ3));
+      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(pow2(cbeta)*pow4(mQ3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (24*lmL3MR*Xb*Xtau*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*Xb2 + mD32*(2*mQ32
         + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR*(-(mQ32*Xb2) - mD32*(2*mQ32 +
-        Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*sbeta*pow3(mD32 - mQ32));
+        Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(cbeta)*pow3(mD32 - mQ32));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-4*(-mE32 + lmE3MR*mE32 + mL32 - lmL3MR*mL32)*Xb*(-6*mQ32 + Xb2)*Xtau)/(
-        cbeta*(mE32 - mL32)*sbeta*pow4(mQ3));
+        pow2(cbeta)*(mE32 - mL32)*pow4(mQ3));
    }
 
    const double exact
       = (24*Xb*Xtau*(-pow2(mE3) + lmE3MR*pow2(mE3) + pow2(mL3) -
         lmL3MR*pow2(mL3))*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*
         Xb2 + mD32*(2*mQ32 + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR
-        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*
-        sbeta*(pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
+        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(
+        cbeta)*(pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
 
    return exact;
 }
-- 
2.43.0


From 13bf8524da9a26b01e6e63bb3a5e2e9d0f7dd930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 41/44] fix: sign of mu in the two-loop thresholds of
 O(yt^4*yb^2, yt^2*yb^4)

The expressions hold for the opposite sign of mu: only then do they agree
with the running of the one-loop thresholds.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 82a6d38..ed86b2c 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2264,8 +2264,8 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    // the corrections are invariant under a simultaneous sign change of mu and
-   // all trilinear couplings; the expressions below are valid for mu > 0
-   const double sgn = p.mu < 0 ? -1. : 1.;
+   // all trilinear couplings; the expressions below are valid for mu < 0
+   const double sgn = p.mu < 0 ? 1. : -1.;
    const double Xt = sgn*calcXt();
    const double Yt = sgn*calcYt();
    const double Xb = sgn*calcXb();
@@ -2639,8 +2639,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    // the corrections are invariant under a simultaneous sign change of mu and
-   // all trilinear couplings; the expressions below are valid for mu > 0
-   const double sgn = p.mu < 0 ? -1. : 1.;
+   // all trilinear couplings; the expressions below are valid for mu < 0
+   const double sgn = p.mu < 0 ? 1. : -1.;
    const double Xt = sgn*calcXt();
    const double Yt = sgn*calcYt();
    const double Xb = sgn*calcXb();
-- 
2.43.0


From ef81d830343a2ce7247f90993bf609fccd011e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 42/44] fix: relative sign of the trilinear coupling and the
 gluino mass in the threshold of O(yb^4*g3^2)

It is the sign of the corrections of O(yt^4*g3^2) and of O(yb*g3^2) now.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index ed86b2c..d9c6a77 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -991,7 +991,8 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
    const double mQ3 = std::sqrt(mQ32);
    const double mD3 = std::sqrt(mD32);
    const double m3 = std::sqrt(m32);
-   const double Xb = calcXb();
+   // the expressions below use the opposite sign of the trilinear coupling
+   const double Xb = -calcXb();
    const double Xb2 = pow2(Xb);
    const double eps = 0.01*mQ3;
    const double lmQ3MR = log(mQ32) - lMR;
-- 
2.43.0


From d34d810755b63d4969df23193c2b7141a091d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:30 +0000
Subject: [PATCH 43/44] fix: squared logarithms in the two-loop EFT corrections
 of O(yb^4*g3^2, yb^6, yt^2*yb^4, ytau^2*yb^4)

Their coefficients were four times too large (those of log(Q/Mt)^2 instead
of log(Q^2/Mt^2)^2): they disagreed with the renormalization group and with
the corresponding corrections from the top quark.
---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index 3537aa9..d058575 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -600,8 +600,8 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
        "dmh2yt4g32"));
 
     const double dmh2yb4g32 = CALC_IF(orders.at(CouplingOrders::G32YB4), discardNaN(
-          ((dlambdayb4g32 + 16 * (3 * B00DR * (dybas + 16 * lmMt) +
-                                  lmMt * (-2 + 3 * dybas + 24 * lmMt))) *
+          ((dlambdayb4g32 + 16 * (3 * B00DR * (dybas + 4 * lmMt) +
+                                  lmMt * (-2 + 3 * dybas + 6 * lmMt))) *
            v2 * pow4(cbeta)) /
           2.,
        "dmh2yb4g32"));
@@ -610,10 +610,10 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
           (-((-144 * dybyb * (B00DR + lmMt) +
               pow2(cbeta) *
                  (-49 - 3 * dlambdayb6 + 72 * dvyb2 - 72 * B00DR * dvyb2 -
-                  60 * lmbMt + 234 * lmMt + 1296 * B00DR * lmMt -
+                  60 * lmbMt + 234 * lmMt + 324 * B00DR * lmMt -
                   72 * dvyb2 * lmMt +
                   dlambdayb4 * (-9 + 9 * B00DR - 6 * dvyb2 + 9 * lmMt) +
-                  36 * pow2(lmbMt) + 648 * pow2(lmMt) - 6 * pow2(Pi))) *
+                  36 * pow2(lmbMt) + 162 * pow2(lmMt) - 6 * pow2(Pi))) *
              v2 * pow4(cbeta)) /
            6.),
        "dmh2yb6"));
@@ -630,10 +630,10 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
        "dmh2yt6"));
 
     const double dmh2yb4ytau2 = CALC_IF(orders.at(CouplingOrders::YTAU2YB4), discardNaN(
-          (((dlambdayb4ytau2 - 96 * B00DR * lmMt -
+          (((dlambdayb4ytau2 - 24 * B00DR * lmMt -
              dlambdayb4 * (-1 + B00DR + lmMt) +
              2 * dvytau2 * (-12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
-             48 * pow2(lmMt)) *
+             12 * pow2(lmMt)) *
             v2 * pow6(cbeta)) /
            2.),
        "dmh2yb4ytau2"));
@@ -665,7 +665,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
           (((48 * dybyt * lmMt +
              (dlambdayt2yb4 + dlambdayb4 * (2 + 2 * dvyt2 - 3 * lmMt) +
               3 * (-15 + 8 * lmbMt + 8 * dvyt2 * (-1 + lmMt) + 18 * lmMt -
-                   24 * pow2(lmMt) - 2 * pow2(Pi))) *
+                   6 * pow2(lmMt) - 2 * pow2(Pi))) *
                 pow2(sbeta) +
              12 * B00DR * (4 * dybyt + (2 * dvyt2 - 9 * lmMt) * pow2(sbeta))) *
             v2 * pow4(cbeta)) /
-- 
2.43.0


From e8929fda466e1909c469e25ad8cc6f7d3f3d3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:07 +0000
Subject: [PATCH 44/44] fix: cancellations in the shift from H3m to DR' for
 nearly degenerate squarks

---
 source/himalaya/HierarchyCalculator.cpp | 59 +++----------------------
 1 file changed, 6 insertions(+), 53 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 0f9a18a..071467b 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -979,30 +979,9 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double lmMsq = std::log(scale2 / Msq2);
    const double lmMgl = std::log(scale2 / Mgl2);
 
-   // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*Xt2*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1))*pow2(p.mu))/(3.*pow6(Mst1));
-      // exact result
-      const double exact = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2)*pow2(Mst1)*pow2(Mst2) + pow4(Mst1) - pow4(Mst2)))/(pow2(Mst1)*
-        pow2(Mst2)*pow3(pow2(Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2shift)*pow2(Mst1)*pow2(Mst2shift) + pow4(Mst1) - pow4(Mst2shift)))/(pow2(Mst1)*
-        pow2(Mst2shift)*pow3(pow2(Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
+   // check for degenerate squark masses (close to the degenerate case the
+   // exact expression suffers from cancellations, so use the limit there)
+   const bool isDegenerate = std::abs(Mst1 - Mst2) < eps;
 
    Eigen::Matrix2d shift;
 
@@ -1097,35 +1076,9 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
    const double lmMsq = omitLogs * std::log(scale2 / Mst12) - std::log(Msq2 / Mst12);
    const double lmMgl = omitLogs * std::log(scale2 / Mst12) - std::log(Mgl2 / Mst12);
 
-   // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1))*(-6*Xt2*pow2(Mst1) + truncateXt*pow2(Xt2) + 6*pow4(Mst1)))/
-        (3.*pow6(Mst1));
-      // exact result
-      const double exact =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*(4*truncateXt*std::log(Mst2/Mst1)*
-        pow2(Mst1)*pow2(Mst2)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2)) +
-        (pow2(Mst1) + pow2(Mst2))*pow3(pow2(Mst1) - pow2(Mst2)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2))))/(pow2(Mst1)*pow2(Mst2)*pow3(pow2(
-        Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*(4*truncateXt*std::log(Mst2shift/Mst1)*
-        pow2(Mst1)*pow2(Mst2shift)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2shift)) +
-        (pow2(Mst1) + pow2(Mst2shift))*pow3(pow2(Mst1) - pow2(Mst2shift)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2shift))))/(pow2(Mst1)*pow2(Mst2shift)*pow3(pow2(
-        Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
+   // check for degenerate squark masses (close to the degenerate case the
+   // exact expression suffers from cancellations, so use the limit there)
+   const bool isDegenerate = std::abs(Mst1 - Mst2) < eps;
 
    double shift = 0.;
 
-- 
2.43.0

