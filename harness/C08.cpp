// C08: the mass expansions against the exact one- and two-loop corrections and
// against each other.
#include <algorithm>
#include "judge.hpp"
#include "paths.hpp"
#include "queries.hpp"
#include "himalaya/HierarchyCalculator.hpp"

using namespace vf;
using namespace himalaya;

static Info info("a case is one spectrum on a one-parameter family approaching an expansion point (or one point for the additivity of the loop orders); non-trivial: the compared correction is finite and not negligible",
   {"exact one-loop and two-loop strong-coupling corrections as computed by getMt41L and getMt42L (checked on their own in C14 and C22)",
    "the neglected terms are at most C*eps^n of the natural size of the correction; n is the depth of the expansion, C was calibrated on the unmodified code with a safety margin"});

namespace {
using M2 = Eigen::Matrix2d;

paths::Path path(Gen& g, int h)
{
   paths::Path P; P.h = h; P.ab = g.coin(0.3); P.M = g.logu(3e5, 3e6); P.xt = g.coin(0.85) ? g.uni(-2, 2) : 0;
   P.a = g.uni(0.2, 1); P.b = g.uni(-1, 1); P.c = g.uni(-1, 1.2); P.scale = g.logu(0.3, 3); P.mu = g.uni(-1.5, 1.5); P.tb = g.logu(1.5, 50); P.mf = P.ab ? g.uni(2, 20) : g.uni(120, 175);
   g.note("hierarchy", refin::name(P.h)); g.note("bottom", P.ab); g.note("M", P.M); g.note("xt", P.xt); g.note("a", P.a); g.note("b", P.b); g.note("c", P.c); g.note("scale", P.scale); g.note("mu", P.mu); g.note("tb", P.tb); g.note("mf", P.mf);
   return P;
}
/// natural size of the one-loop correction
double unit(const paths::Path& P) { const double v = 246, vf = P.ab ? v/std::sqrt(1 + P.tb*P.tb) : v*P.tb/std::sqrt(1 + P.tb*P.tb); return 1.5/M_PI/M_PI*std::pow(P.mf, 4)/vf/vf; }
} // namespace


namespace {
/// upper bounds of the neglected terms in units of the size of the correction
void bounds(int h, double e, double& b1, double& b2)
{
   using namespace sel;
   switch (h) {
   case h4: b1 = 0.5*e; b2 = 3.5*e; break;
   case h5: case h5g1: b1 = 8*e*e; b2 = 5*e*e; break;
   case h6: case h6b: case h6bq22g: b1 = 6*std::pow(e, 8) + 1e-12; b2 = 0.016*e; break;
   case h6g2: case h6b2qg2: case h6bq2g2: b1 = 6*std::pow(e, 8) + 1e-12; b2 = 0.4*e; break;
   default: b1 = 5*std::pow(e, 4) + 1e-9; b2 = 0.13*e*e*e + 5e-8/e/e; // the exact result loses digits near the degenerate spectrum
   }
}
bool isH6(int h) { return h >= sel::h6 && h <= sel::h6g2; }
double dist(const M2& a, const M2& b) { return (a - b).cwiseAbs().maxCoeff(); }
} // namespace

VF_SUB("approach to the exact result", 400000, 6000000)
{
   const int h = g.below(14);
   const paths::Path P = path(g, h);
   const double e = g.logu(0.015, 0.3); g.note("eps", e);
   Parameters p; if (!P.point(e, p)) g.discard();
   // thresholds MG = m + mf of the exact result, where it loses digits
   { double m[2], mg, mq; P.masses(e, m[0], m[1], mg, mq); for (double x : m) if (const double d = std::abs(mg - x)/P.mf; d > 0.5 && d < 2) g.discard(); }
   HierarchyCalculator hc(p, false); HierarchyObject o(P.ab); o.setSuitableHierarchy(h); o.setMDRFlag(0);
   const M2 E1 = hc.getMt41L(o, 0, 0), E2 = hc.getMt42L(o, 0, 0), X1 = hc.calculateHierarchy(o, 1, 0, 0), X2 = hc.calculateHierarchy(o, 0, 1, 0);
   const double U1 = unit(P), U2 = U1*p.g3*p.g3/M_PI/M_PI;
   // the light mass enters as X^2/m1^2
   const double S1 = std::max({5*U1, E1.norm()}), S2 = std::max({30*U2, E2.norm(), isH6(h) ? 5*U2*P.xt*P.xt/e/e : 0.});
   double b1, b2; bounds(h, e, b1, b2);
   g.require(X1(0,1) == X1(1,0) && X2(0,1) == X2(1,0), "asymmetric correction");
   const double d1 = dist(X1, E1); double d2 = dist(X2, E2);
   if (d2 > 0.5*b2*S2) { // digits lost in the exact result?
      double noise = 0;
      for (int k = 0; k < 12; ++k) { paths::Path Q = P; Q.M *= 1 + 1e-10*g.uni(-1, 1); Parameters q; if (!Q.point(e*(1 + 1e-10*g.uni(-1, 1)), q)) continue; HierarchyCalculator hq(q, false); noise = std::max(noise, dist(hq.getMt42L(o, 0, 0), E2)); }
      d2 = std::max(0., d2 - 20*noise);
   }
   g.measure("one loop: " + std::string(refin::name(h)), d1/(b1*S1)); g.measure("two loops: " + std::string(refin::name(h)), d2/(b2*S2));
   g.label(refin::name(h)); g.label(P.ab ? "bottom" : "top");
   g.require(d1 <= b1*S1, cat("one loop: expanded ", X1, " exact ", E1, " difference ", d1, " bound ", b1*S1));
   g.require(d2 <= b2*S2, cat("two loops: expanded ", X2, " exact ", E2, " difference ", d2, " bound ", b2*S2));
   if (X1.norm() > 0.1*U1 && X2.norm() > 0.1*U2) g.nontrivial();
}

VF_SUB("loop orders add up", 60000, 1000000)
{
   const int h = g.below(14), mdr = g.coin(0.4);
   const paths::Path P = path(g, h);
   const double e = g.logu(0.02, 0.9); g.note("eps", e); g.note("mdr", mdr);
   Parameters p; if (!P.point(e, p)) g.discard();
   HierarchyCalculator hc(p, false);
   const auto run = [&](int a, int b, int c) -> M2 { HierarchyObject o(P.ab); o.setSuitableHierarchy(h); o.setMDRFlag(mdr); return hc.calculateHierarchy(o, a, b, c); };
   const M2 X[3] = {run(1, 0, 0), run(0, 1, 0), run(0, 0, 1)};
   bool nt = true;
   for (int which = 0; which < 8; ++which) {
      const M2 Y = run(which & 1, which >> 1 & 1, which >> 2 & 1);
      M2 sum = M2::Zero(), size = M2::Zero();
      for (int k = 0; k < 3; ++k) if (which >> k & 1) { sum += X[k]; size += X[k].cwiseAbs(); }
      if (!sum.allFinite()) { nt = false; continue; } // MDR masses do not exist
      for (int i = 0; i < 4; ++i) { const double d = std::abs(Y(i) - sum(i)), s = size(i);
         g.require(d <= 1e-11*s + (mdr ? 1e-9*size.maxCoeff() : 1e-12*size.maxCoeff()), cat("loop orders (bits) ", which, " element ", i, ": together ", Y(i), ", sum of the separate ones ", sum(i))); }
   }
   if (nt && X[0].norm() > 0) g.nontrivial();
   g.label(refin::name(h));
}

namespace {
/// upper bounds of the different neglected terms of two hierarchies
void overlap(int m, int d, double e, double& b3, double& bl)
{
   using namespace sel;
   if (d == h32q2g || d == h9q2) { b3 = 1.2*std::pow(e, 3.7); bl = 60*e*e*e; }
   else if (d == h3q22g) { b3 = 0.5*std::pow(e, 4.5); bl = 60*std::pow(e, 4); }
   else if (d == h5g1) { b3 = 1.2*std::pow(e, 4); bl = 12*e*e; }
   else if (d == h6g2) { b3 = 0.15*std::min(1., e*e/0.0064); bl = 5*std::min(1., e*e/0.0256); }
   else if (d == h6bq22g) { b3 = 1e-7; bl = 3e-5*e*e + 1e-9; }
   else { b3 = 0.5*std::min(1., std::pow(e/0.08, 1.5)); bl = 120*e*e; }
}
} // namespace

VF_SUB("overlapping hierarchies at three loops", 150000, 2500000)
{
   static const int pairs[][2] = {{sel::h3, sel::h32q2g}, {sel::h3, sel::h3q22g}, {sel::h5, sel::h5g1}, {sel::h6, sel::h6g2}, {sel::h6b, sel::h6b2qg2}, {sel::h6b, sel::h6bq22g}, {sel::h6b, sel::h6bq2g2}, {sel::h9, sel::h9q2}};
   const auto& q = pairs[g.below(8)];
   const paths::Path P = path(g, q[0]);
   const double e = g.logu(0.01, 0.3); g.note("eps", e); g.note("other hierarchy", refin::name(q[1]));
   Parameters p; if (!P.point(e, p)) g.discard();
   HierarchyCalculator hc(p, false);
   M2 X[2]; double l[2];
   for (int k = 0; k < 2; ++k) { HierarchyObject o(P.ab); o.setSuitableHierarchy(q[k]); o.setMDRFlag(0); X[k] = hc.calculateHierarchy(o, 0, 0, 1); l[k] = o.getDLambdaH3m(); }
   const double U1 = unit(P), U3 = U1*std::pow(p.g3*p.g3/M_PI/M_PI, 2);
   const double t = P.xt/e, T = q[0] == sel::h3 || q[0] == sel::h9 ? 0 : (1 + t*t)/e/e;
   const double S3 = std::max({200*U3, X[0].norm(), 2*U3*T}), L3 = std::max({2000., std::abs(l[0]), 1e3*T});
   double b3, bl; overlap(q[0], q[1], e, b3, bl);
   const double d3 = dist(X[0], X[1])/S3, dl = std::abs(l[0] - l[1])/L3;
   const std::string n = cat(refin::name(q[0]), "-", refin::name(q[1]));
   g.measure("three loops: " + n, d3/b3); g.measure("DLambda: " + n, dl/bl); g.label(n);
   g.require(d3 <= b3, cat("three-loop corrections ", X[0], " and ", X[1], ": relative difference ", d3, " bound ", b3));
   g.require(dl <= bl, cat("DLambda ", l[0], " and ", l[1], ": relative difference ", dl, " bound ", bl));
   if (X[0].norm() > U3) g.nontrivial();
}

VF_SUB("expanded expressions", 3000, 100000)
{
   const int h = g.below(14), mdr = g.coin(0.3), loop = g.below(3);
   const paths::Path P = path(g, h);
   const double e = g.logu(0.02, 0.9); g.note("eps", e); g.note("mdr", mdr); g.note("loop", loop + 1);
   Parameters p; if (!P.point(e, p)) g.discard();
   g.label(cat(refin::name(h), " ", loop + 1));
   if (judge::compare(g, {"11", "12", "22"}, [&](const Parameters& q, judge::Vals& v) {
      HierarchyCalculator hc(q, false); HierarchyObject o(P.ab); o.setMDRFlag(mdr); o.setSuitableHierarchy(h);
      const M2 m = hc.calculateHierarchy(o, loop == 0, loop == 1, loop == 2);
      const auto r = vref::calculateHierarchy(refin::in(q, P.ab), h, mdr, loop == 0, loop == 1, loop == 2, refin::flags());
      v.lib = {m(0,0), m(0,1), m(1,1)}; v.ref = {r.a11, r.a12, r.a22}; v.floor = {0, 0, 0};
   }, p)) g.nontrivial();
}
