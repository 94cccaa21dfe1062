// Reference special functions in 113-bit precision (libquadmath).
#pragma once
#include <quadmath.h>
#include <complex>
#include <vector>

namespace qref {

using Q = __float128;

struct C { Q re, im; };
inline C operator+(C a, C b) { return {a.re + b.re, a.im + b.im}; }
inline C operator-(C a, C b) { return {a.re - b.re, a.im - b.im}; }
inline C operator-(C a) { return {-a.re, -a.im}; }
inline C operator*(C a, C b) { return {a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re}; }
inline C operator*(Q a, C b) { return {a*b.re, a*b.im}; }
inline Q abs(C a) { return hypotq(a.re, a.im); }
inline C inv(C a) { const Q s = abs(a); const Q r = a.re/s, i = a.im/s; return {r/s, -i/s}; }
inline C log(C z) { return {logq(abs(z)), atan2q(z.im, z.re)}; }
/// log(1+z), accurate for small z
inline C log1p(C z)
{
   const Q n = 2*z.re + z.re*z.re + z.im*z.im;
   const Q re = (n > -0.5 && n < 1) ? log1pq(n)/2 : logq(hypotq(1 + z.re, z.im));
   return {re, atan2q(z.im, 1 + z.re)};
}
inline Q pi() { return M_PIq; }

/// B_2n/(2n+1)! for n = 1..N
inline const std::vector<Q>& bern()
{
   static const std::vector<Q> b = [] {
      std::vector<Q> r; const int N = 40;
      // B_2n/(2n)! = 2 (-1)^(n+1) zeta(2n)/(2 pi)^(2n)
      for (int n = 1; n <= N; ++n) {
         Q z = 0;
         if (n == 1) z = pi()*pi()/6;
         else {
            // Euler-Maclaurin-free: direct sum plus tail estimate for large 2n
            const int M = 200; const Q s = 2*n;
            for (int k = M - 1; k >= 1; --k) z += powq(k, -s);
            const Q m = M; // sum_{k>=M} k^-s
            z += powq(m, 1 - s)/(s - 1) + powq(m, -s)/2 + s*powq(m, -s - 1)/12
               - s*(s + 1)*(s + 2)*powq(m, -s - 3)/720
               + s*(s + 1)*(s + 2)*(s + 3)*(s + 4)*powq(m, -s - 5)/30240
               - s*(s+1)*(s+2)*(s+3)*(s+4)*(s+5)*(s+6)*powq(m, -s - 7)/1209600
               + s*(s+1)*(s+2)*(s+3)*(s+4)*(s+5)*(s+6)*(s+7)*(s+8)*powq(m, -s - 9)/47900160;
         }
         const Q v = 2*(n % 2 ? 1 : -1)*z/powq(2*pi(), 2*n);
         r.push_back(v/(2*n + 1));
      }
      return r;
   }();
   return b;
}

/// Li2(z), branch cut (1,inf): limit from below (Im = -pi log x) when im == 0
inline C li2(C z)
{
   const Q one = 1;
   if (z.re == 0 && z.im == 0) return {0, 0};
   if (z.im == 0 && z.re == 1) return {pi()*pi()/6, 0};
   C u, rest{0, 0}; int sgn = 1;
   const Q n = abs(z);
   if (n < 1e-10Q) { return z + Q(1)/4*(z*z) + Q(1)/9*(z*z*z) + Q(1)/16*(z*z*z*z); }
   const bool cut = z.im == 0 && z.re > 1;
   if (z.re <= 0.5Q && n <= 1) {
      u = -log1p(-z);
   } else if (z.re > 0.5Q && n*n <= 2*z.re) {
      u = -log(z);
      C l = log1p(-z); if (cut) l.im = pi();   // log(1 - x) on the lower side
      rest = u*l + C{pi()*pi()/6, 0};
      if (cut) { /* Li2(x) = pi^2/6 - log x log(1-x) - Li2(1-x), Im = -pi log x */ }
      sgn = -1;
   } else {
      C lz = log(-z); if (cut) lz = C{logq(z.re), pi()};
      const C iz = inv(z);
      u = -log1p(-iz);
      rest = Q(-0.5)*(lz*lz) - C{pi()*pi()/6, 0};
      sgn = -1;
   }
   const C u2 = u*u;
   C s = u - Q(0.25)*u2, p = u2*u;
   for (const Q b : bern()) { s = s + b*p; p = p*u2; }
   return Q(sgn)*s + rest;
}

inline Q li2r(Q x) { return li2({x, 0}).re; }

inline Q cl2(Q x) { Q s, c; sincosq(x, &s, &c); return li2({c, s}).im; }

} // namespace qref
