// C22: two-loop corrections to the Higgs mass matrix (mh2l).
#include "point.hpp"
#include "veff.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/misc/Logger.hpp"
#include <iostream>
#include <memory>

using vf::cat; using vf::Gen;
using namespace himalaya;
typedef ve::R R;
typedef Eigen::Matrix2d M2;

static vf::Info info(
   "a case is a set of running masses, mixings and couplings of third-generation sfermions with consistent mixing; non-trivial: the compared correction exceeds 1e-3 GeV^2",
   {"oracle: two-loop effective potential of the MSSM without electroweak gauge couplings, evaluated in long double from couplings generated from the superpotential and the soft-breaking terms; the correction is the numerically differentiated potential",
    "accuracy: 1e-6 (1e-5 next to degeneracies) of the correction plus 1000 times the discretisation error and 1000 times the response of the library to a relative change of its arguments by 1e-12; where the documented regulators of the library act (mixing angle or mass splitting below 1e-5), the effect of a regulator of twice that size on the oracle is allowed in addition"});

namespace {
struct Args { double mt2, mb2, ml2, T[2], st, ct, B[2], sb, cb, L[2], sl, cl, v, mA2, mg, q2, mu, tb, vev2, g3; };

struct Point { ve::Input x; Args a; };

/// masses and mixing; swap: the heavier state first
void sf(R y, R phi, R other, R A, R mu, R l, R r, double m[2], double& s, double& c, double& mf2, int flip)
{
   const R h = y*phi/std::sqrt((R)2);
   const ve::Mix x = ve::mix(l + h*h, y*(A*phi - mu*other)/std::sqrt((R)2), r + h*h);
   m[0] = x.m[0]; m[1] = x.m[1]; s = x.s; c = x.c; mf2 = h*h;
   if (flip & 1) { std::swap(m[0], m[1]); const double t = s; s = c; c = -t; } // state 0 <-> state 1
   if (flip & 2) { s = -s; c = -c; }
}

Args args(const ve::Input& x, int flip)
{
   Args a;
   sf(x.yt, x.vu, x.vd, x.At, x.mu, x.mq2, x.mu2, a.T, a.st, a.ct, a.mt2, flip & 3);
   sf(x.yb, x.vd, x.vu, x.Ab, x.mu, x.mq2, x.md2, a.B, a.sb, a.cb, a.mb2, flip >> 2 & 3);
   sf(x.ytau, x.vd, x.vu, x.Atau, x.mu, x.ml2, x.me2, a.L, a.sl, a.cl, a.ml2, flip >> 4 & 3);
   a.v = x.ml2; a.mA2 = x.MA*x.MA; a.mg = x.MG; a.q2 = x.scale*x.scale; a.mu = -x.mu; a.tb = x.vu/x.vd; a.vev2 = ve::sq(x.vu) + ve::sq(x.vd); a.g3 = x.g3;
   return a;
}

Point make(Gen& g)
{
   pt::Opt o; o.msmin = 60; o.tbmin = 0.6; o.yuk = false;
   Parameters p = pt::make(g, o).p;
   if (g.coin(0.1)) p.mu *= 0.05;
   if (g.coin(0.1)) p.MA = g.logu(20, 500);
   if (g.coin(0.05)) p.vd = p.vu;
   if (g.coin(0.15)) p.mu2(2,2) = p.mq2(2,2)*(1 + g.sign()*g.logu(1e-12, 1e-2));
   if (g.coin(0.1)) p.md2(2,2) = p.mq2(2,2)*(1 + g.sign()*g.logu(1e-12, 1e-2));
   if (g.coin(0.1)) p.me2(2,2) = p.ml2(2,2)*(1 + g.sign()*g.logu(1e-12, 1e-2));
   if (g.coin(0.1)) p.Au(2,2) = p.mu*p.vd/p.vu + g.sign()*g.logu(1e-8, 1)*std::sqrt(p.mq2(2,2));
   if (g.coin(0.1)) p.Ad(2,2) = p.mu*p.vu/p.vd + g.sign()*g.logu(1e-8, 1)*std::sqrt(p.mq2(2,2));
   Point r; ve::Input& x = r.x;
   x = {p.g3, p.MG, p.Yu(2,2), p.Yd(2,2), p.Ye(2,2), p.vu, p.vd, p.mu, p.Au(2,2), p.Ad(2,2), p.Ae(2,2), p.mq2(2,2), p.mu2(2,2), p.md2(2,2), p.ml2(2,2), p.me2(2,2), p.MA, p.scale};
   if (g.coin(0.2)) { x.yt *= g.uni(0.05, 1.5); x.yb *= g.uni(1, 20); x.ytau *= g.uni(1, 20); }
   const int flip = g.bits() & 63;
   r.a = args(x, flip);
   const char* n[] = {"g3", "MG", "yt", "yb", "ytau", "vu", "vd", "mu", "At", "Ab", "Atau", "mq2", "mu2", "md2", "ml2", "me2", "MA", "scale"};
   for (int i = 0; i < 18; ++i) g.note(n[i], (double)(&x.g3)[i]);
   g.note("order of states", flip);
   return r;
}

enum { ATAS, ABAS, ATAT, ATAT1, TAU, ABTAU, NC };
const char* const names[] = {"at_as", "ab_as", "at_at", "at_at (top only)", "atau_atau", "ab_atau"};

M2 lib(int k, const Args& a, int heavy = 1)
{
   using namespace himalaya::mh2l;
   switch (k) {
   case ATAS: return delta_mh2_2loop_at_as(a.mt2, a.mg, a.T[0], a.T[1], a.st, a.ct, a.q2, a.mu, a.tb, a.vev2, a.g3, heavy);
   case ABAS: return delta_mh2_2loop_ab_as(a.mb2, a.mg, a.B[0], a.B[1], a.sb, a.cb, a.q2, a.mu, 1/a.tb, a.vev2, a.g3, heavy);
   case ATAT: return delta_mh2_2loop_at_at(a.mt2, a.mb2, a.mA2, a.T[0], a.T[1], a.B[0], a.B[1], a.st, a.ct, a.sb, a.cb, a.q2, a.mu, a.tb, a.vev2, heavy, 0);
   case ATAT1: return delta_mh2_2loop_at_at(a.mt2, a.mb2, a.mA2, a.T[0], a.T[1], a.B[0], a.B[1], a.st, a.ct, a.sb, a.cb, a.q2, a.mu, a.tb, a.vev2, heavy, 1);
   case TAU: return delta_mh2_2loop_atau_atau(a.ml2, a.mA2, a.v, a.L[0], a.L[1], a.sl, a.cl, a.q2, a.mu, a.tb, a.vev2, heavy);
   default: return delta_mh2_2loop_ab_atau(a.ml2, a.mb2, a.L[0], a.L[1], a.B[0], a.B[1], a.sl, a.cl, a.sb, a.cb, a.q2, a.mu, a.tb, a.vev2, heavy);
   }
}

ve::Delta oracle(int k, ve::Input x)
{
   switch (k) {
   case ATAS: return ve::atas(x);
   case ABAS: return ve::abas(x);
   case ATAT: x.ytau = 0; return ve::yukawa(x);
   case ATAT1: x.ytau = x.yb = 0; return ve::yukawa(x);
   case TAU: x.yt = x.yb = 0; return ve::yukawa(x);
   default: return ve::abatau(x);
   }
}

bool uses(int k, int f) { return f == 0 ? k == ATAS || k == ATAT || k == ATAT1 : f == 1 ? k == ABAS || k == ATAT || k == ABTAU : k == TAU || k == ABTAU; }

/// nearly equal masses and nearly vanishing mixing: the O(at^2) routine loses all digits of the heavy Higgs contribution
bool singular(int k, const Args& a)
{
   if (k != ATAT && k != ATAT1) return false;
   const auto f = [](const double* m, double s, double c) { return std::abs(m[0] - m[1])*std::min(std::abs(s), std::abs(c)) < 1e-6*m[0] && std::abs(m[0] - m[1]) < 3e-2*m[0]; };
   return f(a.T, a.st, a.ct) || f(a.B, a.sb, a.cb);
}

bool bad(const Args& a) { const double m = std::max(a.mu*a.mu, a.mA2); if (m > 25*std::min({a.T[0], a.T[1], a.B[0], a.B[1], a.L[0], a.L[1]})) return true; return std::abs(a.mu) < 20 || a.T[0] < 100 || a.T[1] < 100 || a.B[0] < 100 || a.B[1] < 100 || a.L[0] < 100 || a.L[1] < 100 ||  a.ml2 < 0.01 || a.mt2 < 1; }

double maxabs(const M2& m) { return m.cwiseAbs().maxCoeff(); }

/// response of the library to rounding errors of its arguments
double noise(int k, const Args& a, Gen& g, int heavy, double e = 1e-12, int n = 8)
{
   const M2 m = lib(k, a, heavy); double r = 0;
   for (int i = 0; i < n; ++i) {
      Args b = a; const auto j = [&](double& z) { z *= 1 + e*g.uni(-1, 1); };
      for (double* z : {&b.mt2, &b.mb2, &b.ml2, &b.T[0], &b.T[1], &b.B[0], &b.B[1], &b.L[0], &b.L[1], &b.st, &b.ct, &b.sb, &b.cb, &b.sl, &b.cl, &b.v, &b.mA2, &b.mg, &b.mu, &b.tb}) j(*z);
      r = std::max(r, maxabs(lib(k, b, heavy) - m));
   }
   return r;
}

/// effect of the regulators of the library for vanishing mixing and equal masses
double regulators(int k, const Point& p, const ve::Delta& o)
{
   const Args& a = p.a; R r = 0;
   const auto diff = [&](const ve::Input& y) { const ve::Delta d = oracle(k, y); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) r = std::max(r, std::abs(d.d[i][j] - o.d[i][j])); };
   const struct { const double* m; double s, c; R ve::Input::*A; R ve::Input::*y; R ve::Input::*soft; R phi; } f[] = {
      {a.T, a.st, a.ct, &ve::Input::At, &ve::Input::yt, &ve::Input::mu2, p.x.vu}, {a.B, a.sb, a.cb, &ve::Input::Ab, &ve::Input::yb, &ve::Input::md2, p.x.vd}, {a.L, a.sl, a.cl, &ve::Input::Atau, &ve::Input::ytau, &ve::Input::me2, p.x.vd}};
   for (int n = 0; n < 3; ++n) if (uses(k, n)) {
      const R mf = p.x.*f[n].y*f[n].phi/std::sqrt((R)2), split = std::abs((R)f[n].m[0] - f[n].m[1]), s = std::abs(f[n].s), c = std::abs(f[n].c);
      const R eps = k == ATAT || k == ATAT1 ? (n == 0 ? 1e-5L : 1e-8L) : 1e-8L;
      if (s < 2*eps || c < 2*eps) for (int sg : {-1, 1}) { ve::Input y = p.x; y.*f[n].A += sg*2.5L*eps*split/mf; diff(y); }
      if (split < 2e-5L*f[n].m[0]) for (int sg : {-1, 1}) for (int w : {0, 1}) {
         ve::Input y = p.x; const R d = sg*3e-5L*f[n].m[0];
         if (w == 0) y.*f[n].soft += d; else y.*f[n].A += d/mf;
         diff(y); }
   }
   return (double)r;
}

bool regulated(int k, const Args& a)
{
   if (!(k == ATAT || k == ATAT1)) return false;
   for (double b : a.B) for (double t : a.T) if (std::abs(b - t) < 2e-6*b) return true;
   return false;
}

void compare(Gen& g, int k, const Point& p)
{
   const M2 m = lib(k, p.a); const ve::Delta o = oracle(k, p.x);
   M2 e; R err = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { e(i,j) = (double)o.d[i][j]; err = std::max(err, o.err[i][j]); }
   if (!m.allFinite()) {
      const Args& a = p.a;
      if ((k == ATAT || k == ATAT1) && (std::abs(a.st) == std::abs(a.ct) || std::abs(a.sb) == std::abs(a.cb))) { g.known("atat-maximal-mixing", "O(at^2+ab^2+at*ab) correction is not finite for sin^2(theta) = cos^2(theta) exactly"); return; }
      g.fail(cat("correction ", names[k], " is not finite:\n", m)); }
   if (!(m(0,1) == m(1,0))) g.fail(cat(names[k], " is not symmetric"));
   const double d = maxabs(m - e);
   double tol = 1e-6*maxabs(e) + 1000*(double)err;
   if (!(d <= tol)) {
      const double y = k == ATAS ? p.a.g3*p.x.yt : k == ABAS ? p.a.g3*p.x.yb : k == ABTAU ? p.x.yb*p.x.ytau : k == TAU ? p.x.ytau*p.x.ytau : p.x.yt*p.x.yt + (k == ATAT ? p.x.yb*p.x.yb : 0);
      double big = std::max({p.a.mA2, p.a.mu*p.a.mu}); for (int i = 0; i < 2; ++i) big = std::max({big, uses(k, 0) || k == ATAT ? p.a.T[i] : 0, uses(k, 1) ? p.a.B[i] : 0, uses(k, 2) ? p.a.L[i] : 0});
      tol += 1e-6*12*y*y*(double)(ve::kappa*ve::kappa)*big; // natural size of the cancelling terms
      tol += 1e-5*maxabs(e) + 1000*noise(k, p.a, g, 1) + 6*regulators(k, p, o);
      g.label("near a degeneracy or regulator");
   }
   if (!(d <= tol) && regulated(k, p.a)) g.discard();
   if (!(d <= tol) && singular(k, p.a)) {
      // only the correction to the light Higgs boson
      const double n = p.a.vev2, cb = p.x.vd/std::sqrt(n), sb = p.x.vu/std::sqrt(n);
      const auto light = [&](const M2& q) { return cb*cb*q(0,0) + 2*sb*cb*q(0,1) + sb*sb*q(1,1); };
      const double a = light(m), b = light(e), t = 1e-4*(cb*cb*std::abs(e(0,0)) + 2*sb*cb*std::abs(e(0,1)) + sb*sb*std::abs(e(1,1))) + 1e-4*std::abs(b) + 6*regulators(k, p, o);
      g.label("equal masses and vanishing mixing (light Higgs boson only)"); g.measure("light Higgs boson", std::abs(a - b)/t);
      if (!(std::abs(a - b) <= t)) g.fail(cat("correction ", names[k], " to the mass of the light Higgs boson is ", a, ", expected ", b, ", allowed difference ", t));
      return;
   }
   g.measure(names[k], d/(tol + 1e-300));
   if (!(d <= tol)) g.fail(cat("correction ", names[k], " is\n", m, "\nexpected from the effective potential\n", e, "\n(discretisation error ", (double)err, ", allowed difference ", tol, ")"));
   if (maxabs(e) > 1e-3) g.nontrivial();
}
} // namespace

VF_SUB("strong corrections", 60000, 3000000)
{
   const Point p = make(g); if (bad(p.a) || p.a.mb2 < 0.01) g.discard();
   compare(g, g.coin() ? ATAS : ABAS, p);
}
VF_SUB("bottom and tau", 60000, 3000000)
{
   const Point p = make(g); if (bad(p.a) || p.a.mb2 < 0.01) g.discard();
   compare(g, ABTAU, p);
}
VF_SUB("Yukawa corrections", 12000, 800000)
{
   const Point p = make(g); if (bad(p.a) || p.a.mb2 < 0.01) g.discard();
   const int r = g.below(4);
   if (r == 2) { Point q = p; q.x.yb = 1e-5L; q.a = args(q.x, g.bits() & 63); compare(g, ATAT1, q); }
   else compare(g, r < 2 ? ATAT : TAU, p);
}

namespace {
/// distance of d from a multiple of the matrix that a shift of the pseudoscalar mass adds
double offMA(const M2& d, double tb)
{
   const double s = tb/std::sqrt(1 + tb*tb), c = 1/std::sqrt(1 + tb*tb);
   M2 r; r << s*s, -s*c, -s*c, c*c; // unit norm
   return (d - (d.cwiseProduct(r)).sum()*r).norm();
}

double floorOf(int k, const Point& p)
{
   const double y = k == ATAS ? p.a.g3*p.x.yt : k == ABAS ? p.a.g3*p.x.yb : k == ABTAU ? p.x.yb*p.x.ytau : k == TAU ? p.x.ytau*p.x.ytau : p.x.yt*p.x.yt + p.x.yb*p.x.yb;
   return 12*y*y*(double)(ve::kappa*ve::kappa)*std::max({p.a.mA2, p.a.mu*p.a.mu, p.a.T[0], p.a.T[1], p.a.B[0], p.a.B[1], p.a.L[0], p.a.L[1]});
}

bool nearRegulator(int k, const Args& a)
{
   const auto f = [](const double* m, double s, double c) { return std::abs(m[0] - m[1]) < 1e-4*m[0] || std::min(std::abs(s), std::abs(c)) < 1e-4 || std::abs(std::abs(s) - std::abs(c)) < 1e-9; };
   return (uses(k, 0) && f(a.T, a.st, a.ct)) || (uses(k, 1) && f(a.B, a.sb, a.cb)) || (uses(k, 2) && f(a.L, a.sl, a.cl)) || regulated(k, a);
}
} // namespace

VF_SUB("symmetries", 150000, 8000000)
{
   const Point p = make(g); if (bad(p.a) || p.a.mb2 < 0.01) g.discard();
   const int k = std::array<int, 5>{ATAS, ABAS, ATAT, TAU, ABTAU}[g.below(5)];
   if (nearRegulator(k, p.a)) g.discard();
   const int heavy = g.below(2);
   Args a = p.a; M2 f = M2::Ones(); bool exch = false; std::string what; double fac = 1;
   switch (g.below(6)) {
   case 0: { what = "order and sign of the sfermion states"; a = args(p.x, g.bits() & 63); break; }
   case 1: { what = "strong coupling"; const double s = g.logu(0.1, 5); a.g3 *= s; if (k == ATAS || k == ABAS) fac = s*s; break; }
   case 2: { what = "mass dimension"; const double s = g.logu(0.1, 10), q = s*s; for (double* z : {&a.mt2, &a.mb2, &a.ml2, &a.T[0], &a.T[1], &a.B[0], &a.B[1], &a.L[0], &a.L[1], &a.v, &a.mA2, &a.q2, &a.vev2}) *z *= q; a.mg *= s; a.mu *= s; fac = q; break; }
   case 3: { what = "vacuum expectation value"; const double s = g.logu(0.1, 10); a.vev2 *= s; fac = k == ATAS || k == ABAS ? 1/s : 1/(s*s); break; }
   case 4: { what = "sign of mu, trilinear couplings and gaugino masses"; a.mu = -a.mu; a.st = -a.st; a.sb = -a.sb; a.sl = -a.sl; if (k == ATAS || k == ABAS) a.mg = -a.mg; break; }
   default: { what = "exchange of top and bottom"; if (k == ATAT) { std::swap(a.mt2, a.mb2); std::swap(a.T, a.B); std::swap(a.st, a.sb); std::swap(a.ct, a.cb); a.tb = 1/a.tb; exch = true; }
      else if (k == ATAS || k == ABAS) { exch = true; std::swap(a.mt2, a.mb2); std::swap(a.T, a.B); std::swap(a.st, a.sb); std::swap(a.ct, a.cb); a.tb = 1/a.tb; }
      else g.discard(); }
   }
   (void)f;
   const int k2 = exch && k != ATAT ? ATAS + ABAS - k : k;
   const M2 m = lib(k, p.a, heavy); M2 n = lib(k2, a, heavy); if (exch) std::swap(n(0,0), n(1,1));
   n /= fac;
   const double d = maxabs(m - n);
   double tol = 1e-9*maxabs(m) + 1e-9*floorOf(k, p);
   if (!(d <= tol)) tol += 300*(noise(k, p.a, g, heavy) + noise(k2, a, g, heavy)/fac);
   g.measure(what.c_str(), d/tol);
   if (!(d <= tol)) g.fail(cat(what, ": correction ", names[k], (heavy ? "" : " (without heavy Higgs contribution)"), " is\n", m, "\nand, transformed,\n", n, "\n(allowed difference ", tol, ")"));
   if (maxabs(m) > 1e-3) g.nontrivial();
   g.label(what);
}

VF_SUB("scale dependence", 60000, 3000000)
{
   const Point p = make(g); if (bad(p.a) || p.a.mb2 < 0.01) g.discard();
   const int k = std::array<int, 5>{ATAS, ABAS, ATAT, TAU, ABTAU}[g.below(5)], heavy = g.below(2);
   if (nearRegulator(k, p.a)) g.discard();
   const double r = g.logu(1.3, 4); M2 m[4]; double s = 0, n = 0;
   for (int i = 0; i < 4; ++i) { Args a = p.a; a.q2 *= std::pow(r, 2*i); m[i] = lib(k, a, heavy); s = std::max(s, maxabs(m[i])); n = std::max(n, noise(k, a, g, heavy, 1e-12, 3)); }
   const double d = maxabs(m[0] - 3*m[1] + 3*m[2] - m[3]), tol = 1e-9*s + 1e-9*floorOf(k, p) + 1000*n;
   g.measure("third difference", d/tol);
   if (!(d <= tol)) g.fail(cat("correction ", names[k], " is not a quadratic polynomial of the logarithm of the scale: third difference ", d, ", size ", s, ", allowed ", tol));
   if (maxabs(m[0] - m[1]) > 1e-3) g.nontrivial();
}

VF_SUB("light Higgs part", 12000, 800000)
{
   // without the heavy Higgs contribution only a shift of the pseudoscalar mass is missing
   const Point p = make(g); if (bad(p.a) || p.a.mb2 < 0.01) g.discard();
   const int k = std::array<int, 5>{ATAS, ABAS, ATAT, TAU, ABTAU}[g.coin(0.1) ? g.below(5) : std::array<int, 3>{0, 1, 4}[g.below(3)]];
   if (nearRegulator(k, p.a)) g.discard();
   const M2 m = lib(k, p.a, 0), h = lib(k, p.a, 1); const ve::Delta o = oracle(k, p.x);
   M2 e; R err = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { e(i,j) = (double)o.d[i][j]; err = std::max(err, o.err[i][j]); }
   double tol = 1e-8*(maxabs(m) + maxabs(e)) + 1e-8*floorOf(k, p) + 1000*(double)err; const double d = offMA(m - e, p.a.tb), d2 = offMA(m - h, p.a.tb);
   if (!(d <= tol && d2 <= tol)) tol += 1000*(noise(k, p.a, g, 0) + noise(k, p.a, g, 1));
   g.measure("light Higgs part", std::max(d, d2)/tol);
   if (!(d <= tol && d2 <= tol)) g.fail(cat("correction ", names[k], " without heavy Higgs contribution\n", m, "\ndiffers from the effective potential\n", e, "\nor from the complete correction\n", h, "\nby more than a shift of the pseudoscalar mass: ", d, " ", d2, ", allowed ", tol));
   if (maxabs(m) > 1e-3) g.nontrivial();
}

namespace { double maxErr(const ve::Delta& d) { R r = 0; for (auto& a : d.err) for (R z : a) r = std::max(r, z); return (double)r; } }

VF_SUB("calculator", 20000, 1000000)
{
   const Point q = make(g); if (bad(q.a) || q.a.mb2 < 0.01) g.discard();
   const ve::Input& x = q.x; const bool ab = g.coin(0.3); g.note("alpha_b", ab);
   Parameters p; p.scale = (double)x.scale; p.mu = (double)x.mu; p.g1 = p.g2 = 0; p.g3 = (double)x.g3; p.vd = (double)x.vd; p.vu = (double)x.vu;
   p.mq2 = pt::diag(1e6, 1e6, (double)x.mq2); p.mu2 = pt::diag(1e6, 1e6, (double)x.mu2); p.md2 = pt::diag(1e6, 1e6, (double)x.md2); p.ml2 = pt::diag(1e6, 1e6, (double)x.ml2); p.me2 = pt::diag(1e6, 1e6, (double)x.me2);
   p.Yu(2,2) = (double)x.yt; p.Yd(2,2) = (double)x.yb; p.Ye(2,2) = (double)x.ytau; p.Au(2,2) = (double)x.At; p.Ad(2,2) = (double)x.Ab; p.Ae(2,2) = (double)x.Atau;
   p.MA = (double)x.MA; p.M1 = p.M2 = 1000; p.MG = (double)x.MG;
   { p.validate(false); }
   std::unique_ptr<HierarchyCalculator> hc; { std::streambuf* b = std::cerr.rdbuf(nullptr); hc.reset(new HierarchyCalculator(p, false)); std::cerr.rdbuf(b); }
   HierarchyObject ho(ab);
   const M2 m1 = hc->getMt41L(ho, 0, 0), m2 = hc->getMt42L(ho, 0, 0);
   const ve::Loop L{x.scale*x.scale}; const R s2 = std::sqrt((R)2);
   const auto V1 = [&](R pd, R pu) {
      const R y = ab ? x.yb : x.yt, a = ab ? pd : pu, b = ab ? pu : pd, A = ab ? x.Ab : x.At, t = y*y*a*a/2;
      const ve::Mix m = ve::mix(x.mq2 + t, y*(A*a - x.mu*b)/s2, (ab ? x.md2 : x.mu2) + t);
      const auto f = [&](R z) { return z*z*(L.ln(z) - 1.5L)/4; };
      return ve::kappa*(6*f(m.m[0]) + 6*f(m.m[1]) - 12*f(t)); };
   const R yv = (ab ? x.yb*x.vd : x.yt*x.vu), least = ab ? std::min(q.a.B[0], q.a.B[1]) : std::min(q.a.T[0], q.a.T[1]);
   const R step = std::min(0.02L, 0.05L*least/(yv*(std::abs(ab ? x.Ab : x.At) + std::abs(x.mu)*(ab ? x.vu/x.vd : x.vd/x.vu)) + yv*yv));
   const ve::Delta o1 = ve::derivatives(V1, x.vd, x.vu, step), o2 = oracle(ab ? ABAS : ATAS, x);
   M2 e1, e2; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { e1(i,j) = (double)o1.d[i][j]; e2(i,j) = (double)o2.d[i][j]; }
   const double split = std::abs(p.MSt(0) - p.MSt(1))/p.MSt(1), sb = std::abs(p.MSb(0) - p.MSb(1))/p.MSb(1);
   if ((ab ? sb : split) < 1e-5 || nearRegulator(ab ? ABAS : ATAS, q.a)) g.discard();
   const double fl = 12*(ab ? x.yb*x.yb : x.yt*x.yt)*(double)ve::kappa*std::max({p.mu*p.mu, p.MSt(1)*p.MSt(1), p.MSb(1)*p.MSb(1)});
   const double t1 = 1e-6*(maxabs(m1) + maxabs(e1)) + 1000*maxErr(o1) + 1e-10*fl/(ab ? sb : split), t2 = 1e-5*(maxabs(m2) + maxabs(e2)) + 1000*maxErr(o2) + 1e-12*fl/std::pow(ab ? sb : split, 2) + 1000*noise(ab ? ABAS : ATAS, q.a, g, 0);
   const double d1 = offMA(m1 - e1, q.a.tb), d2 = offMA(m2 - e2, q.a.tb);
   if (!ab) {
      g.measure("one-loop matrix", d1/t1); g.measure("two-loop matrix", d2/t2);
      if (!(d1 <= t1)) g.fail(cat("one-loop mass matrix of the calculator\n", m1, "\ndiffers from the effective potential\n", e1, "\nby more than a shift of the pseudoscalar mass: ", d1, ", allowed ", t1));
      if (!(d2 <= t2)) g.fail(cat("two-loop mass matrix of the calculator\n", m2, "\ndiffers from the effective potential\n", e2, "\nby more than a shift of the pseudoscalar mass: ", d2, ", allowed ", t2));
   } else if (!(d1 <= t1 && d2 <= t2)) {
      // known: the formulas for the top quark with bottom and sbottom masses, doublets not exchanged
      const M2 w2 = lib(ATAS, [&] { Args a = q.a; a.mt2 = p.Mb*p.Mb; a.T[0] = p.MSb(0)*p.MSb(0); a.T[1] = p.MSb(1)*p.MSb(1); a.st = std::sin(p.theta_b); a.ct = std::cos(p.theta_b); return a; }(), 0);
      ve::Input z = x; z.yt = std::sqrt((R)2)*p.Mb/x.vu; z.mu2 = x.md2; z.At = x.mu*x.vd/x.vu + (x.Ab - x.mu*x.vu/x.vd);
      const auto W1 = [&](R pd, R pu) { const R t = z.yt*z.yt*pu*pu/2; const ve::Mix m = ve::mix(z.mq2 + t, z.yt*(z.At*pu - z.mu*pd)/s2, z.mu2 + t); const auto f = [&](R u) { return u*u*(L.ln(u) - 1.5L)/4; }; return ve::kappa*(6*f(m.m[0]) + 6*f(m.m[1]) - 12*f(t)); };
      const ve::Delta w1 = ve::derivatives(W1, x.vd, x.vu, step);
      M2 k1; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) k1(i,j) = (double)w1.d[i][j];
      if (offMA(m1 - k1, q.a.tb) <= t1 + 1e-7*maxabs(k1) && maxabs(m2 - w2) <= t2 + 1e-9*maxabs(w2)) g.known("alphab-doublets", "mass matrices O(ab) and O(ab*as) of the calculator are those of O(at), O(at*as) with bottom and sbottom masses, i.e. the Higgs doublets are not exchanged");
      else g.fail(cat("one-loop mass matrix O(ab) of the calculator\n", m1, "\nexpected\n", e1, "\nor, with the known defect,\n", k1, "\ntwo-loop\n", m2, "\nexpected\n", e2, "\nor\n", w2));
   }
   if (maxabs(m1) > 1) g.nontrivial();
   if (ab) g.label("bottom");
}
