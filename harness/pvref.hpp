// Reference one-loop functions in 113-bit precision.
#pragma once
#include "qref.hpp"

namespace pvref {
using qref::Q; using qref::C;

/// -1 + log(1-x) - x log(1-1/x), real part, x complex or real (limit: principal value)
inline Q fB(C x)
{
   const Q n = qref::abs(x);
   if (n == 0) return -1;
   if (x.im == 0 && x.re == 1) return -1;
   if (n > 1e4Q) {
      // log(1-x) - x log(1-1/x) = log(-x) + log(1-1/x)(1-x) ; (1-x)log(1-1/x) = 1 - sum_k y^k/(k(k+1)) , y = 1/x
      const C y = qref::inv(x); C s{0, 0}, p = y;
      for (int k = 1; k < 14; ++k) { s = s + (Q(1)/(Q(k)*(k + 1)))*p; p = p*y; }
      return logq(n) - s.re;
   }
   const C l1 = n < 0.5Q ? qref::log1p(-x) : qref::log(C{1, 0} - x);
   const C y = qref::inv(x);
   const C l2 = qref::abs(y) < 0.5Q ? qref::log1p(-y) : qref::log(C{1, 0} - y);
   return -1 + l1.re - (x*l2).re;
}

/// Re B0(p2, a, b; q2) for a, b >= 0, p2 >= 0
inline Q b0(Q p2, Q a, Q b, Q q2)
{
   if (a > b) { Q t = a; a = b; b = t; }
   if (b == 0) return p2 == 0 ? Q(0) : 2 - logq(p2/q2);
   // value and derivative at p2 = 0
   if (p2 <= 1e-17Q*b && (a > 0 ? p2 < 1e-15Q*b : true)) {
      const Q d = (b - a)/b;
      Q v, dv;
      if (d < 1e-3Q) { // series in d: a = b (1-d); -int log(1 - x d)
         v = -logq(b/q2); Q pw = d; dv = 0;
         for (int k = 1; k < 14; ++k) { v += pw/(Q(k)*(k + 1)); pw *= d; }
         // dv = int x(1-x)/(b(1-xd)) = 1/b sum d^k int x^(k+1)(1-x) = 1/b sum d^k/((k+2)(k+3))
         pw = 1; for (int k = 0; k < 14; ++k) { dv += pw/(Q(k + 2)*(k + 3)); pw *= d; }
         dv /= b;
      } else {
         v = 1 - logq(b/q2) + (a > 0 ? a*logq(b/a)/(a - b) : Q(0));
         dv = a > 0 ? ((a - b)*(a + b) + 2*a*b*logq(b/a))/(2*(a - b)*(a - b)*(a - b)) : 1/(2*b);
      }
      return v + p2*dv;
   }
   const Q s = p2 - b + a;
   const Q lam = s*s - 4*p2*a;   // x = (s +- sqrt(lam))/(2 p2)
   C xp, xm;
   if (lam >= 0) {
      const Q r = sqrtq(lam);
      const Q big = s >= 0 ? s + r : s - r;
      xp = {big/(2*p2), 0};
      xm = big != 0 ? C{2*a/big, 0} : C{0, 0};
   } else {
      const Q r = sqrtq(-lam);
      xp = {s/(2*p2), r/(2*p2)}; xm = {s/(2*p2), -r/(2*p2)};
   }
   return -logq(p2/q2) - fB(xp) - fB(xm);
}

/// derivative of B0 at p2 = 0
inline Q d1_b0(Q a, Q b)
{
   if (a > b) { Q t = a; a = b; b = t; }
   if (b == 0) return 0;
   if (a == 0) return 1/(2*b);
   const Q d = (b - a)/b;
   if (d < 0.02Q) { Q dv = 0, pw = 1; for (int k = 0; k < 25; ++k) { dv += pw/(Q(k + 2)*(k + 3)); pw *= d; } return dv/b; }
   return ((a - b)*(a + b) + 2*a*b*logq(b/a))/(2*(a - b)*(a - b)*(a - b));
}
} // namespace pvref
