// C09: the reported expansion uncertainties against an independent
// evaluation with the reference expansions.
#include "judge.hpp"
#include "paths.hpp"
#include "queries.hpp"
#include "himalaya/HierarchyCalculator.hpp"

using namespace vf;
using namespace himalaya;

static Info info("a case is one point with one hierarchy, scheme, quark flavour, combination of loop orders and one mass matrix; non-trivial: a finite non-zero uncertainty of which at least three digits are determined",
   {"oracle: the same quadratic sum over the expansion variables, evaluated with the frozen long double expansions and an independent eigenvalue formula",
    "an uncertainty is not a number exactly if one of the squared masses is negative (tachyonic lightest Higgs boson)"});

namespace {
using M2 = Eigen::Matrix2d;

Parameters completed(Gen& g)
{
   pt::Opt o; o.yuk = false;
   auto pp = pt::make(g, o);
   Parameters p = pp.p;
   try { qu::Silence s; p.validate(false); } catch (const std::exception&) { g.discard(); }
   if (g.coin(0.6)) {
      const double M = pp.MS;
      for (auto* m : {&p.MSt, &p.MSb}) { (*m)(0) = M*g.uni(0.3, 2.5); (*m)(1) = (*m)(0)*(1 + g.logu(1e-3, 2)); }
      p.s2t = g.uni(-1, 1); p.theta_t = std::asin(p.s2t)/2; p.s2b = g.uni(-1, 1); p.theta_b = std::asin(p.s2b)/2;
      p.MG = M*g.uni(0.2, 3);
   }
   return p;
}

/// rounding error of the difference of two light masses
double rounding(const M2& m) { const double l = sel::lightest(m); return std::isfinite(l) && l > 0 ? 2e-14*(std::abs(m(0,0)) + std::abs(m(1,1)) + std::abs(m(0,1)))/l : 0; }
} // namespace

VF_SUB("uncertainty for a given mass matrix", 18000, 900000)
{
   const int h = g.below(14), mdr = g.coin(0.3), which = 1 + g.below(7);
   const bool ab = g.coin(0.3);
   const Parameters p = completed(g);
   M2 m;
   switch (g.below(4)) {
   case 0: m = sel::tree(p); break;
   case 1: m = sel::tree(p)*g.uni(1, 2); m(1,1) += g.uni(0, 2e4); break;
   case 2: { const double a = g.logu(1e3, 1e8), b = g.logu(1e3, 1e8), c = g.uni(-1.1, 1.1)*std::sqrt(a*b); m << a, c, c, b; break; }
   default: { const double a = g.logu(1e3, 1e8), b = g.logu(1e3, 1e8); m << a, 0, 0, b; }
   }
   g.label(refin::name(h)); g.note("hierarchy", refin::name(h)); g.note("MDR", mdr); g.note("loops (bits)", which); g.note("bottom", ab); g.note("m11", m(0,0)); g.note("m12", m(0,1)); g.note("m22", m(1,1)); pt::note(g, p);
   bool undefined = false;
   const bool nt = judge::compare(g, {"uncertainty"}, [&](const Parameters& q, judge::Vals& v) {
      HierarchyCalculator hc(q, false); HierarchyObject o(ab); o.setMDRFlag(mdr); o.setSuitableHierarchy(h);
      const double u = hc.getExpansionUncertainty(o, m, which & 1 ? 1 : 0, which & 2 ? 1 : 0, which & 4 ? 1 : 0);
      g.require(!(u < 0), cat("negative uncertainty ", u));
      const vref::In x = refin::in(q, ab);
      const double r = sel::uncertainty(x, h, mdr, m, which & 1, which & 2, which & 4);
      v.lib = {u}; v.ref = {r}; v.floor = {rounding(m) + rounding(m + sel::mat(vref::calculateHierarchy(x, h, mdr, which & 1, which & 2, which & 4, refin::flags())))};
      if (std::isnan(r)) undefined = true;
   }, p);
   if (nt) g.nontrivial();
   g.label(undefined ? "tachyonic" : "defined");
}

VF_SUB("no loop order requested", 20000, 400000)
{
   const int h = g.below(14), mdr = g.coin(0.3); const bool ab = g.coin(0.3);
   const Parameters p = completed(g);
   M2 m = sel::tree(p)*g.uni(0.5, 2); if (g.coin(0.3)) m(0,1) = m(1,0) = m(0,1)*g.uni(0, 3);
   pt::note(g, p); g.note("hierarchy", refin::name(h));
   HierarchyCalculator hc(p, false); HierarchyObject o(ab); o.setMDRFlag(mdr); o.setSuitableHierarchy(h);
   const double u = hc.getExpansionUncertainty(o, m, 0, 0, 0), det = m(0,0)*m(1,1) - m(0,1)*m(0,1);
   if (std::abs(det) < 1e-10*std::abs(m(0,0)*m(1,1))) g.discard();
   if (det > 0) { g.require(u == 0, cat("uncertainty ", u, " without any loop order")); g.nontrivial(); }
   else g.require(std::isnan(u), cat("uncertainty ", u, " of a tachyonic mass matrix"));
}

VF_SUB("result object", 12000, 250000)
{
   pt::Opt o; o.yuk = false; o.xtmax = 2.5;
   auto pp = pt::make(g, o); Parameters p = pp.p; const bool ab = g.coin(0.25);
   qu::Silence s;
   if (g.coin(0.5)) { const double M = pp.MS; p.MSt(0) = M*g.uni(0.3, 1.5); p.MSt(1) = p.MSt(0)*(1 + g.logu(1e-3, 2)); p.s2t = g.uni(-0.7, 0.7); p.MG = p.MSt(g.below(2))*g.uni(0.5, 1.6); }
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   pt::note(g, p); g.note("bottom", ab);
   int h0 = -1; bool undefined = false;
   const auto eval = [&](const Parameters& q, judge::Vals& v) {
      v.lib.assign(3, 0); v.ref.assign(3, 0); v.floor.assign(3, 0);
      HierarchyCalculator hc(q, false);
      const HierarchyObject ho = hc.calculateDMh3L(ab);
      const int h = ho.getSuitableHierarchy();
      if (h0 < 0) h0 = h;
      if (h != h0) throw Discard(); // tied choice
      const vref::In x = refin::in(q, ab);
      const M2 one = sel::tree(q) + sel::mat(vref::oneLoopAt(x, x.M1, x.M2));
      const M2 m = ho.getDMh(0) + ho.getDMh(1) + ho.getDMh(2);
      v.lib = {ho.getDMhExpUncertainty(1), ho.getDMhExpUncertainty(2), ho.getDMhExpUncertainty(3)};
      v.ref = {0, sel::uncertainty(x, h, 0, one, 0, 1, 0), sel::uncertainty(x, h, 0, m, 0, 0, 1)};
      v.floor = {0, 2*rounding(one) + rounding(one + sel::mat(vref::calculateHierarchy(x, h, 0, 0, 1, 0, refin::flags()))), 2*rounding(m) + rounding(m + sel::mat(vref::calculateHierarchy(x, h, 0, 0, 0, 1, refin::flags())))};
      for (double u : v.lib) g.require(!(u < 0), cat("negative uncertainty ", u));
      for (auto r : v.ref) if (std::isnan((double)r)) undefined = true;
      for (int l = 0; l < 4; ++l) { const double u = ho.getDLambdaUncertainty(l); g.require(!(u < 0), cat("DLambdaUncertainty(", l, ") = ", u)); if (l < 3 || ab) g.require(u == 0, cat("DLambdaUncertainty(", l, ") = ", u)); }
      if (!ab) { const double u = ho.getDLambdaUncertainty(3), d = std::abs(ho.getDLambdaEFT() - ho.getDLambdaH3m()); g.require(!(u < d*(1 - 1e-14)), cat("DLambdaUncertainty(3) = ", u, " is smaller than the expansion error ", d)); }
   };
   try { if (judge::compare(g, {"DMhExpUncertainty(1)", "DMhExpUncertainty(2)", "DMhExpUncertainty(3)"}, eval, p, 5)) g.nontrivial(); }
   catch (const std::runtime_error& e) { if (dynamic_cast<const Fail*>(&e)) throw; g.discard(); }
   g.label(refin::name(h0)); g.label(undefined ? "tachyonic" : "defined");
}

VF_SUB("shrinks towards the degenerate spectrum", 20000, 400000)
{
   const int hs[] = {sel::h3, sel::h32q2g, sel::h3q22g, sel::h9, sel::h9q2};
   paths::Path P; P.h = hs[g.below(5)]; P.ab = g.coin(0.3); P.M = g.logu(1e4, 1e6); P.xt = g.coin(0.8) ? g.uni(-2, 2) : 0;
   P.a = g.uni(0.2, 1); P.b = g.uni(-1, 1); P.c = g.uni(-1, 1.2); P.scale = g.logu(0.3, 3); P.mu = g.uni(-1.5, 1.5); P.tb = g.logu(1.5, 50); P.mf = P.ab ? g.uni(2, 20) : g.uni(120, 175);
   const double e = g.uni(0.1, 0.25);
   g.note("hierarchy", refin::name(P.h)); g.note("xt", P.xt); g.note("a", P.a); g.note("b", P.b); g.note("c", P.c); g.note("scale", P.scale); g.note("mu", P.mu); g.note("tb", P.tb); g.note("eps", e); g.note("M", P.M); g.note("bottom", P.ab);
   M2 m; m << 1e8, 0, 0, 1e4; if (g.coin()) m << 1e4, 0, 0, 1e8;
   double u[4], shift = 0;
   for (int k = 0; k < 4; ++k) {
      Parameters p; if (!P.point(e*std::pow(0.25, k), p)) g.discard();
      HierarchyCalculator hc(p, false); HierarchyObject o(P.ab); o.setSuitableHierarchy(P.h); o.setMDRFlag(0);
      u[k] = hc.getExpansionUncertainty(o, m, 0, 0, 1);
      shift = std::max(shift, std::abs(sel::lightest(m + hc.calculateHierarchy(o, 0, 0, 1)) - sel::lightest(m)));
   }
   g.label(refin::name(P.h));
   const double u0 = std::max(u[0], u[1]); // U(eps) alone may vanish accidentally
   if (!(u0 > 1e-3*shift && u0 > 1e-10)) g.discard();
   g.measure("U(eps/64)/(0.4 U(eps) + 0.02 shift)", u[3]/(0.4*u0 + 0.02*shift + 1e-12));
   g.require(u[3] < 0.4*u0 + 0.02*shift + 1e-12, cat("three-loop uncertainties for eps, eps/4, eps/16, eps/64: ", u[0], ", ", u[1], ", ", u[2], ", ", u[3]));
   g.nontrivial();
}
