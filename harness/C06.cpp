// C06: the best suitable mass hierarchy is chosen.
#include "point.hpp"
#include "sel.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"

using namespace vf;
using namespace himalaya;

static Info info(
   "a case is one accepted point (spectra from the soft parameters or with freely supplied stop and sbottom masses and mixing, gluino mass next to either, squark masses from lighter to much heavier) and the top or the bottom variant; the chosen hierarchy, the reported deviations and the two-loop expansion uncertainty, from calculateDMh3L and from compareHierarchies, are compared with an independent selection model; "
   "non-trivial: at least two compatible hierarchies with different error measures, or none at all",
   {"oracle: selection model written from the documented measure and mass orderings; expanded corrections and their truncations from the frozen long double reference, one-loop matrix from the effective potential, exact two-loop matrix from the library (decided in C22)",
    "if error measures tie within 1e-6 (relative) or 1e-9 (absolute), each of the tied hierarchies is accepted; points within 1e-9 of a boundary of a mass ordering, and points where cancellations leave no significant digits in the lightest mass, are discarded"});

static void check(Gen& g, const Parameters& p, bool ab)
{
   const auto m = sel::masses(p, ab);
   if (sel::border(m) < 1e-9) g.discard();
   const auto c = sel::candidates(p, ab);
   const int b = sel::best(c);
   g.note("masses m1 m2 gluino squark", cat(m.m1, " ", m.m2, " ", m.mg, " ", m.mq));
   { std::string s; for (const auto& x : c) s += cat(refin::name(x.h), ": ", x.measure, "  "); g.note("error measures", s); }
   for (const auto& x : c) if (x.noise > 1e-8) g.discard();
   const bool whole = g.coin(0.4);
   g.note("via", whole ? "calculateDMh3L" : "compareHierarchies");
   HierarchyObject ho(ab);
   int h = -2;
   bool thrown = false;
   try {
      HierarchyCalculator hc(p, false);
      if (whole) { ho = hc.calculateDMh3L(ab); h = ho.getSuitableHierarchy(); }
      else { h = hc.compareHierarchies(ho); if (h >= 0 && h != ho.getSuitableHierarchy()) g.fail("returned hierarchy is not the stored one"); }
   } catch (const std::exception&) { thrown = true; }
   if (c.empty()) {
      g.label("none compatible");
      if (whole && !thrown) g.fail(cat("no hierarchy is compatible, but the calculation returns one: ", refin::name(h)));
      if (!whole && !thrown && h != -1) g.fail(cat("no hierarchy is compatible, but one is returned: ", refin::name(h)));
      g.nontrivial();
      return;
   }
   if (thrown) g.fail("exception although hierarchies are compatible with the spectrum");
   g.label(refin::name(c[b].h));
   const sel::Candidate* ch = nullptr;
   for (const auto& x : c) if (x.h == h) ch = &x;
   if (!ch) g.fail(cat("hierarchy ", refin::name(h), " is not compatible with the spectrum"));
   const double mb = c[b].measure, mc = ch->measure;
   if (std::isnan(mb)) { g.label("tachyonic"); return; }
   if (!(mc <= mb*(1 + 1e-6) + 1e-9)) g.fail(cat("chosen ", refin::name(h), " with error measure ", mc, ", but ", refin::name(c[b].h), " has ", mb));
   const double mass = ch->reldiff > 0 ? ch->absdiff/ch->reldiff : 100;
   const auto near = [&](const char* n, double a, double x, double s) { if (!(std::abs(a - x) <= 1e-6*std::abs(x) + 1e-7*s)) g.fail(cat(n, " = ", a, ", should be ", x)); };
   near("absolute deviation", ho.getAbsDiff2L(), ch->absdiff, mass);
   near("relative deviation", ho.getRelDiff2L(), ch->reldiff, 1);
   near("two-loop expansion uncertainty", ho.getDMhExpUncertainty(2), ch->unc2, mass);
   double second = 1e300; for (const auto& x : c) if (&x != &c[b] && x.measure < second) second = x.measure;
   if (second < 1e300 && second > mb*(1 + 1e-6) + 1e-9) g.nontrivial();
}

VF_SUB("spectrum from the soft parameters", 60000, 900000)
{
   const auto pp = pt::make(g);
   Parameters p = pp.p;
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   const bool ab = g.coin(0.3);
   g.note("bottom", ab); pt::note(g, p);
   check(g, p, ab);
}

VF_SUB("supplied masses", 60000, 900000)
{
   pt::Opt o; o.yuk = false;
   const auto pp = pt::make(g, o);
   Parameters p = pp.p;
   const double M = pp.MS;
   for (auto* m : {&p.MSt, &p.MSb}) {
      const double a = M*g.uni(0.3, 2), b = a*(1 + (g.coin(0.3) ? g.logu(1e-6, 0.1) : g.uni(0.05, 2)));
      *m << a, b;
   }
   p.theta_t = g.uni(-1.5, 1.5); p.s2t = std::sin(2*p.theta_t); p.theta_b = g.uni(-1.5, 1.5); p.s2b = std::sin(2*p.theta_b);
   if (g.coin(0.3)) { p.theta_t = std::asin(p.s2t *= 0.1)/2; }
   const auto& ms = g.coin() ? p.MSt : p.MSb;
   switch (g.below(5)) {
   case 0: p.MG = ms(0)*g.uni(0.7, 1.3); break;
   case 1: p.MG = ms(1)*g.uni(0.7, 1.3); break;
   case 2: p.MG = ms(0)*g.uni(0.1, 1); break;
   case 3: p.MG = g.uni(ms(0), ms(1)); break;
   default: p.MG = M*g.logu(0.2, 4);
   }
   const double q = std::pow((g.coin(0.3) ? ms(1)*g.uni(0.7, 1.05) : g.coin() ? ms(1)*g.uni(1, 1.4) : ms(1)*g.logu(0.6, 10)), 2);
   p.mq2 = pt::diag(q, q, p.mq2(2,2)); p.mu2 = pt::diag(q, q, p.mu2(2,2)); p.md2 = pt::diag(q, q, q);
   if (g.coin()) p.mq2(2,2) = q;
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   const bool ab = g.coin(0.3);
   g.note("bottom", ab); pt::note(g, p);
   check(g, p, ab);
}
