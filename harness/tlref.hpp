// Threshold loop functions from their closed-form definitions in 113-bit
// precision. Next to a removable singularity the definition is evaluated on
// Chebyshev nodes around the argument and interpolated, so no expansion of the
// code under test is repeated here.
#pragma once
#include "qref.hpp"
#include <cmath>
#include <functional>

namespace tlref {
using qref::Q;

inline Q lg(Q x) { return x == 0 ? Q(0) : logq(x*x); } // log(x^2), only used times x^n
inline Q p(Q x, int n) { Q r = 1; while (n-- > 0) r *= x; return r; }

// --- definitions, one variable
inline Q F1(Q x) { return x*lg(x)/(x*x - 1); }
inline Q F2(Q x) { const Q x2 = x*x; return 6*x2*(2 - 2*x2 + (1 + x2)*lg(x))/p(x2 - 1, 3); }
inline Q F3(Q x) { const Q x2 = x*x; return 2*x*(5*(1 - x2) + (1 + 4*x2)*lg(x))/(3*p(x2 - 1, 2)); }
inline Q F4(Q x) { const Q x2 = x*x; return 2*x*(x2 - 1 - lg(x))/p(x2 - 1, 2); }
inline Q F5(Q x) { const Q x2 = x*x; return 3*x*(1 - x2*x2 + 2*x2*lg(x))/p(1 - x2, 3); }
inline Q F6(Q x) { const Q x2 = x*x; return (x2 - 3)/(4*(1 - x2)) + x2*(x2 - 2)/(2*p(1 - x2, 2))*lg(x); }
inline Q F7(Q x) { const Q x2 = x*x; return -3*(x2*x2 - 6*x2 + 1)/(2*p(x2 - 1, 2)) + 3*x2*x2*(x2 - 3)/p(x2 - 1, 3)*lg(x); }
inline Q f1(Q x) { const Q r = x*x; return 6*(r + 3)*r/(7*p(r - 1, 2)) + 6*(r - 5)*r*r*lg(x)/(7*p(r - 1, 3)); }
inline Q f2(Q x) { const Q r = x*x; return 2*(r + 11)*r/(9*p(r - 1, 2)) + 2*(5*r - 17)*r*r*lg(x)/(9*p(r - 1, 3)); }
inline Q f3(Q x) { const Q r = x*x; return 2*(r*r + 9*r + 2)/(3*p(r - 1, 2)) + 2*(r*r - 7*r - 6)*r*lg(x)/(3*p(r - 1, 3)); }
inline Q f4(Q x) { const Q r = x*x; return 2*(5*r*r + 25*r + 6)/(7*p(r - 1, 2)) + 2*(r*r - 19*r - 18)*r*lg(x)/(7*p(r - 1, 3)); }
// --- two variables
inline Q F8(Q x, Q y) { const Q a = x*x, b = y*y; return -2 + 2/(a - b)*(a*a/(a - 1)*lg(x) - b*b/(b - 1)*lg(y)); }
inline Q F9(Q x, Q y) { const Q a = x*x, b = y*y; return 2/(a - b)*(a/(a - 1)*lg(x) - b/(b - 1)*lg(y)); }
inline Q f5(Q x, Q y) { const Q a = x*x, b = y*y; return Q(3)/4*((1 + (x + y)*(x + y) - a*b)/((a - 1)*(b - 1)) + p(x, 3)*(a + 1)*lg(x)/(p(a - 1, 2)*(x - y)) - p(y, 3)*(b + 1)*lg(y)/((x - y)*p(b - 1, 2))); }
inline Q f6(Q x, Q y) { const Q a = x*x, b = y*y; return Q(6)/7*((a + b + x*y - a*b)/((a - 1)*(b - 1)) + p(x, 5)*lg(x)/(p(a - 1, 2)*(x - y)) - p(y, 5)*lg(y)/((x - y)*p(b - 1, 2))); }
inline Q f7(Q x, Q y) { const Q a = x*x, b = y*y; return 6*((1 + x*y)/((a - 1)*(b - 1)) + p(x, 3)*lg(x)/(p(a - 1, 2)*(x - y)) - p(y, 3)*lg(y)/((x - y)*p(b - 1, 2))); }
inline Q f8(Q x, Q y) { const Q a = x*x, b = y*y; return Q(3)/2*((x + y)/((a - 1)*(b - 1)) + p(x, 4)*lg(x)/(p(a - 1, 2)*(x - y)) - p(y, 4)*lg(y)/((x - y)*p(b - 1, 2))); }

constexpr int N = 18;
inline Q node(int k) { return cosq((2*k + 1)*M_PIq/(2*N)); }
/// Lagrange weight of node k at t (first-kind Chebyshev points)
struct Cheb {
   Q x[N], w[N];
   Cheb() { for (int k = 0; k < N; ++k) { x[k] = node(k); w[k] = (k % 2 ? -1 : 1)*sinq((2*k + 1)*M_PIq/(2*N)); } }
   /// normalised weights at t
   void at(Q t, Q* l) const {
      Q s = 0;
      for (int k = 0; k < N; ++k) { if (t == x[k]) { for (int j = 0; j < N; ++j) l[j] = j == k; return; } l[k] = w[k]/(t - x[k]); s += l[k]; }
      for (int k = 0; k < N; ++k) l[k] /= s;
   }
};
inline const Cheb& cheb() { static const Cheb c; return c; }

inline bool near(Q a, Q b, Q m) { return fabsq(a - b) < Q(1e-3)*m; }

template <class F> Q one(F f, double x)
{
   const Q X = x;
   if (!near(fabsq(X), 1, 1)) return f(X);
   const Q h = Q(0.1)*fabsq(X), c = X + h*Q(0.0371); // centre off the singular point
   Q l[N], r = 0;
   cheb().at((X - c)/h, l);
   for (int k = 0; k < N; ++k) r += l[k]*f(c + h*cheb().x[k]);
   return r;
}

/// even: singular at |x| = |y| instead of x = y
template <class F> Q two(F f, double x, double y, bool even)
{
   const Q X = x, Y = y, ax = fabsq(X), ay = fabsq(Y), m = ax > ay ? ax : ay;
   if (X == 0 && Y == 0) return f(Q(1e-300Q), Q(2e-300Q)); // limit
   const bool sx = near(ax, 1, 1), sy = near(ay, 1, 1), eq = even ? near(ax, ay, m) : near(X, Y, m);
   const bool ix = X != 0 && (sx || (eq && ax >= ay)), iy = Y != 0 && (sy || (eq && ax < ay));
   if (!ix && !iy) return f(X, Y);
   const Q hx = Q(0.1)*ax, cx = X + hx*Q(0.0371), hy = Q(0.1)*ay, cy = Y + hy*Q(0.0593);
   Q lx[N], ly[N], r = 0;
   if (ix) cheb().at((X - cx)/hx, lx);
   if (iy) cheb().at((Y - cy)/hy, ly);
   for (int k = 0; k < (ix ? N : 1); ++k)
      for (int j = 0; j < (iy ? N : 1); ++j)
         r += (ix ? lx[k] : Q(1))*(iy ? ly[j] : Q(1))*f(ix ? cx + hx*cheb().x[k] : X, iy ? cy + hy*cheb().x[j] : Y);
   return r;
}

/// lambda^2(u,v)/2*z*Phi (x,y,z): Davydychev and Tausk
inline Q phi(double x_, double y_, double z_)
{
   Q x = x_, y = y_, z = z_, t;
   if (x > y) { t = x; x = y; y = t; }
   if (y > z) { t = y; y = z; z = t; }
   if (x > y) { t = x; x = y; y = t; }
   const Q u = x/z, v = y/z;
   const Q su = sqrtq(u), sv = sqrtq(v);
   // lambda^2 = (1 - (su+sv)^2)(1 - (su-sv)^2)
   const Q l2 = (1 - u - v)*(1 - u - v) - 4*u*v;
   if (l2 == 0) return 0;
   if (l2 > 0) {
      const Q l = sqrtq(l2);
      // (1+u-v-l)/2 = 2u.../..., written without cancellation
      const Q a = 2*u/(1 + u - v + l), b = 2*v/(1 - u + v + l);
      const Q r = 2*logq(a)*logq(b) - logq(u)*logq(v) - 2*qref::li2({a, 0}).re - 2*qref::li2({b, 0}).re + M_PIq*M_PIq/3;
      return r*l*z/2;
   }
   const Q l = sqrtq(-l2);
   auto cl = [] (Q c) { const Q t = 2*acosq(c); return qref::li2({cosq(t), sinq(t)}).im; };
   const Q r = 2*(cl((-1 + u + v)/(2*su*sv)) + cl((1 + u - v)/(2*su)) + cl((1 - u + v)/(2*sv)));
   return -r*l*z/2;
}
} // namespace tlref
