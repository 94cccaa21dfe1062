// C27: the expansion coefficients keep their published values.  Reference: an
// audited frozen copy of the expressions evaluated in long double (/verif/ref).
#include "point.hpp"
#include "refin.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"

using namespace vf;
using namespace himalaya;
using refin::R;

static Info info(
   "a case is one hierarchy with one spectrum (any, not only those for which the hierarchy is chosen), sign and size of the mixing and of mu, scale, selection of loop orders, scheme and quark flavour, respectively one object of an expansion class with arbitrary arguments and truncation flags; every matrix element and logarithmic coefficient is compared with the reference; "
   "non-trivial: finite and non-zero results",
   {"oracle: frozen copy of the published expressions, evaluated in long double, with the constants recomputed from their definitions and an independently written calling code",
    "tolerance: 300 times the largest change of the difference between library and reference over 7 inputs in a 1e-10 neighbourhood (a rounding error fluctuates, an error of an expression does not), plus 2e-12 of the entry"});

static Parameters completed(Gen& g)
{
   pt::Opt o; o.yuk = false;
   auto pp = pt::make(g, o);
   Parameters p = pp.p;
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   // arbitrary stop and squark masses, not bound to the mass matrices
   if (g.coin(0.6)) {
      const double M = pp.MS;
      for (auto* m : {&p.MSt, &p.MSb}) { (*m)(0) = M*g.uni(0.3, 2.5); (*m)(1) = (*m)(0)*(1 + g.logu(1e-3, 2)); }
      p.s2t = g.uni(-1, 1); p.theta_t = std::asin(p.s2t)/2; p.s2b = g.uni(-1, 1); p.theta_b = std::asin(p.s2b)/2;
      p.MG = M*g.uni(0.2, 3);
   }
   return p;
}

static Parameters near(Gen& g, Parameters p)
{
   const auto j = [&](double& x) { x *= 1 + 1e-10*g.uni(-1, 1); };
   for (double* x : {&p.scale, &p.mu, &p.g3, &p.vd, &p.vu, &p.MG, &p.Mt, &p.Mb, &p.theta_t, &p.theta_b, &p.MSt(0), &p.MSt(1), &p.MSb(0), &p.MSb(1), &p.Au(2,2), &p.Ad(2,2), &p.mq2(0,0)}) j(*x);
   p.s2t = std::sin(2*p.theta_t); p.s2b = std::sin(2*p.theta_b);
   return p;
}

/// lists of library values and of reference values at one point
struct Vals { std::vector<double> lib; std::vector<R> ref; };

template <class F> void judge(Gen& g, const std::vector<std::string>& names, F&& eval, const Parameters& p)
{
   Vals v0; eval(p, v0);
   const int n = names.size();
   std::vector<double> noise(n, 0);
   for (int k = 0; k < 7; ++k) {
      Vals v; eval(near(g, p), v);
      for (int i = 0; i < n; ++i) { const double d = std::abs((double)((v.lib[i] - v.ref[i]) - (v0.lib[i] - v0.ref[i]))); if (d > noise[i] || std::isnan(d)) noise[i] = d; }
   }
   bool nt = false;
   for (int i = 0; i < n; ++i) {
      const bool fl = std::isfinite(v0.lib[i]), fr = std::isfinite((double)v0.ref[i]);
      if (!fr && !fl) continue;
      if (std::isnan(noise[i]) || std::isinf(noise[i])) continue;
      const double d = std::abs((double)(v0.lib[i] - v0.ref[i])), tol = 300*noise[i] + 2e-12*std::abs((double)v0.ref[i]) + 1e-250;
      if (!(d <= tol)) g.fail(cat(names[i], " = ", v0.lib[i], ", published expression gives ", (double)v0.ref[i], " (tolerance ", tol, ")"));
      if (fl && v0.lib[i] != 0 && tol < 1e-6*std::abs(v0.lib[i])) nt = true;
   }
   if (nt) g.nontrivial();
}

VF_SUB("calculateHierarchy", 40000, 900000)
{
   const int h = g.below(14), mdr = g.coin(0.3), which = 1 + g.below(7);
   const bool ab = g.coin(0.3);
   const Parameters p = completed(g);
   g.label(refin::name(h)); g.note("hierarchy", refin::name(h)); g.note("MDR", mdr); g.note("loops (bits)", which); g.note("bottom", ab); pt::note(g, p);
   const bool only3 = which == 4;
   std::vector<std::string> names{"mass matrix (0,0)", "mass matrix (0,1)", "mass matrix (1,0)", "mass matrix (1,1)"};
   if (only3) { names.push_back("three-loop quartic coupling"); names.push_back("three-loop quartic coupling, non-logarithmic part"); names.push_back("MDR mass 1"); names.push_back("MDR mass 2"); }
   judge(g, names, [&](const Parameters& q, Vals& v) {
      HierarchyCalculator hc(q, false);
      HierarchyObject ho(ab); ho.setMDRFlag(mdr); ho.setSuitableHierarchy(h);
      const Eigen::Matrix2d m = hc.calculateHierarchy(ho, which & 1 ? 1 : 0, which & 2 ? 1 : 0, which & 4 ? 1 : 0);
      const vref::In x = refin::in(q, ab);
      const auto r = vref::calculateHierarchy(x, h, mdr, which & 1, which & 2, which & 4, refin::flags());
      v.lib = {m(0,0), m(0,1), m(1,0), m(1,1)}; v.ref = {r.a11, r.a12, r.a12, r.a22};
      if (only3) {
         const auto l = vref::lambdaLogs(x, h, mdr, refin::flags());
         const auto mm = vref::mdrMasses(x, h, mdr, mdr);
         v.lib.insert(v.lib.end(), {ho.getDLambdaH3m(), ho.getDLambdaNonLog(), ho.getMDRMasses()(0), ho.getMDRMasses()(1)});
         v.ref.insert(v.ref.end(), {l.sum(), l.c[0], std::min(mm.m1, mm.m2), std::max(mm.m1, mm.m2)});
      }
   }, p);
}
