// C11: scheme shifts connect the schemes they name.
//
// Oracles: (1) a result expressed by the parameters of another scheme is the
// same up to higher orders: coefficients of as and as^2 of the shift, obtained
// from its values at several strong couplings, vanish; (2) the shift between
// H3m and DR' is the effect of the known difference of the stop masses
// (from the mass of the epsilon scalars) on the leading one-loop correction.
#include "vf.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "paths.hpp"
#include "point.hpp"
#include "queries.hpp"
#include <Eigen/LU>
#include <algorithm>

using vf::Gen; using vf::cat;
using namespace himalaya;

static vf::Info info(
   "the squark masses of the two schemes differ, or the shift is not negligible",
   {"MDR' masses are undefined (NaN) if the conversion makes their square negative: such points are not compared",
    "for stop masses within 1 % of each other the library uses a limit that neglects the difference",
    "three-loop terms are expansions in mass ratios: agreement up to neglected terms close to the point of expansion"});

namespace {

typedef Eigen::Matrix2d M2;
constexpr double kappa = 1/(16*M_PI*M_PI);
double sq(double x) { return x*x; }

/// coefficients of x, x^2 of a function without constant term, values at x0, 2 x0, 3 x0, 4 x0
void fit(const M2 v[4], double x0, M2& c1, M2& c2)
{
   Eigen::Matrix4d A;
   for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A(i,j) = std::pow(i + 1., j + 1);
   const Eigen::Matrix4d I = A.inverse();
   c1 = c2 = M2::Zero();
   for (int i = 0; i < 4; i++) { c1 += I(0,i)*v[i]/x0; c2 += I(1,i)*v[i]/(x0*x0); }
}

double mx(const M2& m) { return m.cwiseAbs().maxCoeff(); }

/// spectrum near the point of expansion of a hierarchy
Parameters near(Gen& g, int h, bool ab, double e)
{
   const bool narrow = h == sel::h3 || h == sel::h32q2g || h == sel::h3q22g || h == sel::h9 || h == sel::h9q2 || h == sel::h4;
   paths::Path P; P.h = h; P.M = narrow ? g.logu(2e3, 2e4) : g.logu(1.5e3, 1e4)/e;
   P.a = g.uni(0.4, 1); P.b = g.uni(-1, 1); P.c = g.uni(-1, 1.2);
   double m1, m2, mg, mq; P.masses(e, m1, m2, mg, mq);
   if (g.coin()) std::swap(m1, m2);
   Parameters p;
   const double tb = g.logu(1.5, 40), b = std::atan(tb), v = 246;
   p.vu = v*std::sin(b); p.vd = v*std::cos(b);
   p.Mt = g.uni(120, 180); p.Mb = ab ? g.uni(3, 30) : 2.5; p.Mtau = 1.7;
   p.Yu(2,2) = std::sqrt(2.)*p.Mt/p.vu; p.Yd(2,2) = std::sqrt(2.)*p.Mb/p.vd; p.Ye(2,2) = 0.05;
   p.g1 = p.g2 = 0; p.g3 = 1;
   p.MG = mg; p.M1 = p.M2 = p.MA = P.M;
   p.mu = P.M*g.uni(-1.5, 1.5)*(h == sel::h4 ? e : 1);
   const double X = (g.coin(0.8) ? g.uni(-2, 2) : 0)*P.M*e;
   p.Au(2,2) = X + p.mu/tb; p.Ad(2,2) = X + p.mu*tb;
   p.ml2 = p.me2 = P.M*P.M*Eigen::Matrix3d::Identity();
   p.mq2 = p.mu2 = p.md2 = mq*mq*Eigen::Matrix3d::Identity();
   p.mq2(2,2) = m1*m1; (ab ? p.md2 : p.mu2)(2,2) = m2*m2;
   // average squark mass
   if (ab) { const double f = mq*std::pow(sq(mq)/(m1*m2), 1/8.); for (int i = 0; i < 2; i++) p.mq2(i,i) = p.mu2(i,i) = p.md2(i,i) = f*f; p.mu2(2,2) = sq(mq*1.01); }
   else p.md2(2,2) = std::pow(mq, 4)/sq(m1);
   p.scale = P.M*g.logu(0.3, 3);
   g.note("eps", e); g.note("near", refin::name(h)); g.note("bottom", ab);
   return p;
}

} // anonymous namespace

VF_SUB("modified scheme", 60000, 2000000)
{
   const int h = g.below(14);
   const bool ab = g.coin(0.3);
   const double e = g.logu(0.02, 0.3);
   Parameters p = near(g, h, ab, e);
   pt::note(g, p);
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   HierarchyObject o(ab), n(ab);
   o.setMDRFlag(1); n.setMDRFlag(0); o.setSuitableHierarchy(h); n.setSuitableHierarchy(h);
   // strong couplings for which the masses change by 0.1 %
   const auto change = [&] (double x, int two) {
      Parameters q = p; q.g3 = std::sqrt(x);
      HierarchyCalculator hc(q, false);
      const double m[2] = {hc.shiftMst1ToMDR(n, 0, 0), hc.shiftMst2ToMDR(n, 0, 0)};
      return std::max(std::abs(hc.shiftMst1ToMDR(o, 1, two)/m[0] - 1), std::abs(hc.shiftMst2ToMDR(o, 1, two)/m[1] - 1));
   };
   const double xs = 1e-3, d1 = change(xs, 0), d2 = change(xs, 1);
   if (!(d2 > 1e-14)) g.discard();
   double x0 = xs*std::min(d1 > 0 ? 1e-3/d1 : 1e3, std::sqrt((d1 > 0 || h == sel::h4 ? 2e-5 : 3e-4)/d2));
   for (int k = 0; k < 60 && !(change(4*x0, 1) < (0.02)); k++) x0 *= 0.7;
   M2 v[4], w[4];
   for (int i = 0; i < 4; i++) {
      Parameters q = p; q.g3 = std::sqrt(x0*(i + 1));
      HierarchyCalculator hc(q, false);
      w[i] = hc.getMt41L(o, 1, 1) - hc.getMt41L(n, 0, 0);
      v[i] = hc.calcDRbarToMDRbarShift(o, true, true) + hc.calculateHierarchy(o, 0, 0, 1) - hc.calculateHierarchy(n, 0, 0, 1);
      if (!v[i].allFinite()) g.discard();
   }
   M2 c1, c2, e1, e2;
   fit(v, x0, c1, c2); fit(w, x0, e1, e2);
   Parameters q = p; q.g3 = 1;
   q.validate(false);
   HierarchyCalculator hc(q, false);
   const M2 two = hc.getMt42L(n, 0, 0), three = hc.calculateHierarchy(n, 0, 0, 1), one = hc.getMt41L(n, 0, 0);
   // rounding errors
   const double mf = ab ? p.Mb : p.Mt, s2 = ab ? q.s2b : q.s2t, nz = 3/(2*sq(M_PI*p.vu))*sq(mf)*(sq(mf) + sq(p.mu*s2))*1e-13/x0;
   const double t1 = 1e-4*(mx(two) + mx(e1)) + 1e-8*mx(one)/x0 + nz + 1e-9*mx(two), r1 = mx(c1)/t1;
   const double t2 = ((ab || h == sel::h6b2qg2 || h == sel::h6bq22g || h == sel::h6bq2g2 ? 8e-3 : 3e-3) + (h >= sel::h6b && h <= sel::h6bq2g2 ? 3 : 0.3)*e*e + (h == sel::h4 ? 1.5*e : 0) + 12*sq((ab ? p.Mb : p.Mt)/std::min(hc.shiftMst1ToMDR(n, 0, 0), hc.shiftMst2ToMDR(n, 0, 0))))*(mx(three) + mx(e2) + mx(two)*d1/xs) + 1e-8*mx(one)/sq(x0) + nz/x0 + (ab ? 1e-7 : 1e-9)*mx(two)/x0, r2 = mx(c2)/t2;
   g.label(refin::name(h));
   g.measure(cat("as ", refin::name(h)), r1); g.measure(cat("as2 ", refin::name(h)), r2);
   g.require(r1 <= 1, cat("O(as) of the difference between the schemes: ", c1, ", tolerance ", t1, " (two-loop correction ", two, ")"));
   g.require(r2 <= 1, cat("O(as^2) of the difference between the schemes: ", c2, ", tolerance ", t2, " (three-loop correction ", three, ")"));
   if (mx(e1) > 100*t1 || mx(e2) > 10*t2) g.nontrivial();
}

VF_SUB("shift of the three-loop scheme", 60000, 2000000)
{
   const bool ab = g.coin(0.3);
   Parameters p;
   if (g.coin(0.6)) p = near(g, g.below(14), ab, g.logu(0.005, 0.4));
   else { p = pt::make(g).p; if (ab) { p.Mb = g.uni(2, 20); p.Yd(2,2) = std::sqrt(2.)*p.Mb/p.vd; } }
   p.g3 = g.uni(0.5, 1.3);
   if (g.coin(0.2)) { // masses supplied by the user, equal or nearly so
      auto& m = ab ? p.MSb : p.MSt;
      m(0) = std::sqrt(std::sqrt(std::abs(p.mq2(2,2)*(ab ? p.md2 : p.mu2)(2,2)))); m(1) = m(0)*(1 + (g.coin(0.15) ? 0 : g.logu(1e-16, 0.009)));
      (ab ? p.s2b : p.s2t) = g.coin(0.3) ? 0 : g.uni(-1, 1);
      g.label("supplied");
   }
   pt::note(g, p);
   HierarchyObject o(ab);
   try { HierarchyCalculator hc(p, false); o = hc.calculateDMh3L(ab); } catch (const std::exception&) { g.discard(); }
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   const int h = o.getSuitableHierarchy();
   const bool trunc = h == sel::h3 || h == sel::h32q2g || h == sel::h3q22g || h == sel::h9 || h == sel::h9q2;
   typedef long double R;
   const R m = ab ? p.Mb : p.Mt, a = sq((ab ? p.MSb : p.MSt)(0)), b = sq((ab ? p.MSb : p.MSt)(1)), tb = p.vu/p.vd, mu = p.mu;
   const R X = h == sel::h4 ? 0 : ab ? p.Ad(2,2) - mu*tb : p.Au(2,2) - mu/tb, A = X + mu/tb, Q2 = sq(p.scale);
   const double msq = std::sqrt(std::abs(p.calculateMsq2()));
   const auto f = [&] (R x, R k) { return k*x*(1 + std::log(Q2/x)); };
   const R B[4] = {f(sq(p.MG), -6), f(sq(msq), 10), f(a, 1), f(b, 1)};
   const R sum = B[0] + B[1] + B[2] + B[3], abs = std::abs(B[0]) + std::abs(B[1]) + std::abs(B[2]) + std::abs(B[3]) + 0.5L*(6*sq(p.MG) + 10*sq(msq) + a + b);
   // difference of the squared squark masses
   const R delta = 8/3.L*sq(kappa*sq(p.g3));
   // one-loop correction with fixed mixing: F1, F2, F3 of Brignole, Degrassi, Slavich, Zwirner
   const R d = a - b, F1 = 1/a + 1/b, F2d = -1/(a*b);          // F2/(a - b)
   // F3/(a - b)^2 = (a^2 - b^2 - 2ab log(a/b))/(ab (a - b)^3)
   R F3dd;
   const R e = d/(a + b);
   if (std::abs(e) > 0.02L) F3dd = (a*a - b*b - 2*a*b*std::log(a/b))/(a*b*d*d*d);
   else { R s = 0, t = 1; for (int k = 1; k < 12; k++) { s += t*(1/R(2*k - 1) - 1/R(2*k + 1)); t *= e*e; } F3dd = 4*s/(4*(a + b))/(a*b); }
   // field-dependent masses: s2 = 2 m X/(a - b)
   const R h2 = 2*m*m/sq(p.vu), N = 3*kappa*h2*m*m*delta;
   R s11 = 2*N*mu*mu*X*X*F3dd, s12 = N*(-2*mu*X*F2d - 2*A*mu*X*X*F3dd), s22 = N*(2*F1 + 4*A*X*F2d + 2*A*A*X*X*F3dd);
   if (trunc) s22 -= N*2*X*X*X*X*F3dd;
   const R Y = std::max(std::abs(X), 1e-6L*(std::abs(mu)*(tb + 1) + std::abs(A))), AY = std::max(std::abs(A), Y); // rounding of X
   const R n11 = 2*N*mu*mu*Y*Y*F3dd, n12 = N*(std::abs(2*mu*Y*F2d) + std::abs(2*AY*mu*Y*Y*F3dd)), n22 = N*(2*F1 + std::abs(4*AY*Y*F2d) + std::abs(2*AY*AY*Y*Y*F3dd) + std::abs(2*Y*Y*Y*Y*F3dd));
   M2 S, T; S << s11*sum, s12*sum, s12*sum, s22*sum; T << n11*abs, n12*abs, n12*abs, n22*abs;
   const M2 L = -o.getDMhDRbarPrimeToH3mShift();
   const double split = std::abs(std::sqrt((double)a) - std::sqrt((double)b))/std::sqrt((double)a);
   g.label(split < 0.01 ? "degenerate" : split < 0.1 ? "close" : "split"); g.label(ab ? "bottom" : "top");
   const double tol = split < 0.0101 ? 0.05 : 1e-9 + 1e-13/std::pow(split, 3);
   for (int i = 0; i < 4; i++) {
      g.measure(cat(split < 0.0101 ? "degenerate " : "", i), std::abs(L(i) - S(i))/(tol*T(i) + 1e-300));
      g.require(std::abs(L(i) - S(i)) <= tol*T(i) + 1e-300, cat("shift from H3m to DR' ", L, ", effect of the mass shift ", S, ", relative tolerance ", tol));
   }
   if (mx(S) > 0.01*mx(T)) g.nontrivial();
}

VF_SUB("reported", 15000, 500000)
{
   const bool ab = g.coin(0.25);
   const double e = g.logu(0.02, 0.4);
   Parameters p;
   if (g.coin(0.8)) p = near(g, g.below(14), ab, e); else { p = pt::make(g).p; if (ab) { p.Mb = g.uni(2, 20); p.Yd(2,2) = std::sqrt(2.)*p.Mb/p.vd; } }
   p.g3 = g.coin() ? g.uni(0.5, 1.3) : g.logu(1e-3, 0.5);
   pt::note(g, p);
   HierarchyObject o(ab);
   try { HierarchyCalculator hc(p, false); o = hc.calculateDMh3L(ab); } catch (const std::exception&) { g.discard(); }
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   HierarchyCalculator hc(p, false);
   HierarchyObject m(ab), n(ab);
   const int h = o.getSuitableHierarchy();
   m.setSuitableHierarchy(h); n.setSuitableHierarchy(h); m.setMDRFlag(1); n.setMDRFlag(0);
   g.label(refin::name(h));
   // without shifts
   for (int w = 0; w < 2; w++) {
      const HierarchyObject& y = w ? m : n;
      const auto& ms = ab ? p.MSb : p.MSt;
      g.require(hc.shiftMst1ToMDR(y, 0, 0) == ms(0) && hc.shiftMst2ToMDR(y, 0, 0) == ms(1), cat("squark masses with all shift flags off: ", hc.shiftMst1ToMDR(y, 0, 0), " ", hc.shiftMst2ToMDR(y, 0, 0), ", in DR': ", ms(0), " ", ms(1)));
      g.require(mx(hc.calcDRbarToMDRbarShift(y, false, false)) == 0, "shift with all flags off");
   }
   // parts add up
   const M2 s1 = hc.calcDRbarToMDRbarShift(m, true, false), s2 = hc.calcDRbarToMDRbarShift(m, false, true), s = hc.calcDRbarToMDRbarShift(m, true, true);
   const double m1 = hc.shiftMst1ToMDR(m, 1, 1), m2 = hc.shiftMst2ToMDR(m, 1, 1);
   if (!(m1 > 0 && m2 > 0)) {
      g.label("undefined");
      g.require(!(o.getMDRMasses()(0) > 0 && o.getMDRMasses()(1) > 0), cat("masses reported in the modified scheme ", o.getMDRMasses()(0), " ", o.getMDRMasses()(1), ", converted ", m1, " ", m2));
      return;
   }
   vf::close(g, "lighter mass in the modified scheme", o.getMDRMasses()(0), std::min(m1, m2), 1e-13*m1);
   vf::close(g, "heavier mass in the modified scheme", o.getMDRMasses()(1), std::max(m1, m2), 1e-13*m2);
   const M2 three = hc.calculateHierarchy(m, 0, 0, 1) - hc.calculateHierarchy(n, 0, 0, 1);
   const double sc = mx(s1) + mx(s2);
   if (!s.allFinite() || !three.allFinite()) { g.label("not finite"); return; }
   for (int i = 0; i < 4; i++) vf::close(g, cat("shift of both loop orders (", i, ")"), s(i), s1(i) + s2(i), 1e-13*sc + 1e-300);
   vf::close(g, "first squark mass reported after a calculation in the modified scheme", m.getMDRMasses()(0), std::min(m1, m2), 1e-13*m1);
   // dependence of the reported shift on the strong coupling, hierarchy unchanged
   double d = std::max(std::abs(m1/p.MSt(0) - 1), std::abs(m2/p.MSt(1) - 1));
   if (ab) d = std::max(std::abs(m1/p.MSb(0) - 1), std::abs(m2/p.MSb(1) - 1));
   // one-loop, two-loop, three-loop parts and the change of the three-loop shift itself
   const M2 x = o.getDMhDRbarPrimeToMDRbarPrimeShift() - s - three;
   const double y = mx(o.getDMhDRbarPrimeToH3mShift());
   const double big = 4*(std::abs(m1/hc.shiftMst1ToMDR(n, 0, 0) - 1) + std::abs(m2/hc.shiftMst2ToMDR(n, 0, 0) - 1));
   g.note("change of the masses", d);
   if (d < 0.05) {
      const double split = std::abs(m1/m2 - 1);
      if (split > 0.05) {
         const double tol = 10*big*y + 1e-11*(mx(s) + mx(hc.calculateHierarchy(n, 0, 0, 1)));
         // the three-loop shift is a function with large cancellations: compare with its own size
         const double nat = 50*big*kappa*sq(kappa)*std::pow(p.g3, 4)*sq(sq(ab ? p.Mb : p.Mt))*2/sq(p.vu)*16*(6*sq(p.MG)*std::abs(1 + 2*std::log(p.scale/p.MG)) + 10*p.calculateMsq2()*std::abs(1 + std::log(sq(p.scale)/p.calculateMsq2())) + (m1*m1 + m2*m2)*(1 + std::abs(2*std::log(p.scale/m1)) + std::abs(2*std::log(p.scale/m2))))/sq(std::min(m1, m2))*(1 + sq(sq(std::abs(p.mu) + std::abs((ab ? p.Ad : p.Au)(2,2)))/sq(std::min(m1, m2))));
         for (int i = 0; i < 4; i++) {
            g.measure("composition", std::abs(x(i))/(tol + nat));
            g.require(std::abs(x(i)) <= tol + nat, cat("reported shift minus parts ", x, ", tolerance ", tol + nat));
         }
      }
      if (d > 1e-9) g.nontrivial();
   }
}

VF_SUB("vanishing coupling", 5000, 200000)
{
   const bool ab = g.coin(0.25);
   Parameters p = g.coin() ? near(g, g.below(14), ab, g.logu(0.02, 0.4)) : pt::make(g).p;
   p.g3 = 1;
   pt::note(g, p);
   double last = 0, first = 0;
   bool nan = false;
   for (double x: {1e-4, 1e-5, 1e-6, 0.}) {
      Parameters q = p; q.g3 = x;
      HierarchyObject o(ab);
      try { HierarchyCalculator hc(q, false); o = hc.calculateDMh3L(ab); q.validate(false); } catch (const std::exception&) { g.discard(); }
      const auto& ms = ab ? q.MSb : q.MSt;
      const double d = std::max(std::abs(o.getMDRMasses()(0)/ms(0) - 1), std::abs(o.getMDRMasses()(1)/ms(1) - 1));
      const double s = mx(o.getDMhDRbarPrimeToMDRbarPrimeShift());
      if (!std::isfinite(d)) { g.require(x > 0, "masses in the modified scheme without strong coupling"); nan = true; continue; }
      if (x == 1e-4) first = d;
      if (x == 0) {
         g.require(d < 1e-14, cat("masses in the modified scheme differ without strong coupling by ", d));
         g.require(s <= 1e-12*mx(o.getDMh(1)), cat("shift without strong coupling ", o.getDMhDRbarPrimeToMDRbarPrimeShift(), ", one-loop correction ", o.getDMh(1)));
         g.require(mx(o.getDMhDRbarPrimeToH3mShift()) == 0, cat("H3m shift without strong coupling ", o.getDMhDRbarPrimeToH3mShift()));
      } else if (!nan && last > 1e-9) g.require(d < last/30, cat("masses in the modified scheme differ by ", d, " with a strong coupling of ", x, ", by ", last, " with 10 times this value"));
      last = d;
   }
   if (first > 1e-10) g.nontrivial();
}
