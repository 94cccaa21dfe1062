// C12: dimensional covariance, parameter symmetries, independence of parameters
// that do not enter, powers of the strong coupling.
#include "results.hpp"
#include "sel.hpp"
#include "queries.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include <algorithm>

using namespace vf;
using namespace himalaya;
using res::List;

static Info info(
   "a case is one accepted point and its image under a transformation (common rescaling of all dimensionful inputs; sign change of all trilinear couplings, electroweak gaugino masses and mu; change of parameters that must not enter; rescaling of the strong coupling); all numbers of both results are compared after undoing the transformation; "
   "non-trivial: both results exist and the transformation changes an input of the calculation",
   {"oracle: metamorphic; the tolerance is 1e-10 of the entry plus, for ill-conditioned points, the change caused by relative input changes between 1e-15 (times 100) and 3e-12 (maximum over 28 random ones, at both points)",
    "points at which such tiny changes switch between hierarchies or between throwing and not throwing are discarded"});

namespace {
using Eval = std::function<bool(const Parameters&, List&)>;

bool starts(const std::string& s, const char* t) { return s.compare(0, std::strlen(t), t) == 0; }
bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }

bool hierarchyDependent(const std::string& n)
{
   for (const char* s : {"hierarchy", "limit", "DMh(3)", "Diff2L", "ExpUncertainty", "DMh2(3)", "DMh2FO(3)", "DMh2FOAt(3)", "DMh2EFT(3)", "DLambda(3)", "DLambdaUncertainty(3)", "DLambdaDRbarPrimeToMSbarShift(3)", "DLambdaH3m", "DLambdaEFT", "DLambdaNonLog", "MDR", "H3mShift"})
      if (has(n, s)) return true;
   return false;
}

int limit(Parameters p, bool massEigenstates)
{
   p.validate(false);
   if (massEigenstates) { p.mu2(2,2) = p.MSt(0)*p.MSt(0); p.mq2(2,2) = p.MSt(1)*p.MSt(1); }
   return (int)mh2_eft::ThresholdCalculator(p, false).getLimit();
}

double discrete(const List& l) { for (const auto& v : l) if (v.name == "hierarchy" || v.name == "limit") return v.v; return 0; }

/// the two evaluations give the same list at p; use(name): compare this entry?
void compare(Gen& g, const Parameters& p, const Eval& ea, const Eval& eb, const std::function<bool(const std::string&)>& use, const std::function<Parameters(const Parameters&)>& image, bool ab = false)
{
   List la, lb;
   const bool oka = ea(p, la), okb = eb(p, lb);
   if (oka != okb) {
      for (int k = 0; k < 6; ++k) { const auto j = res::jitter(g, p, 1e-13); List l; if (ea(j, l) != oka || eb(j, l) != okb) g.discard(); }
      g.fail(oka ? "only the transformed point throws" : "only the original point throws");
   }
   if (!oka) { g.label("throws"); return; }
   g.require(la.size() == lb.size(), "different number of results");
   const auto both = [&](std::size_t i) { return std::isnan(la[i].v) && std::isnan(lb[i].v); };
   const auto agree = [&](std::size_t i, double tol) { return !use(la[i].name) || both(i) || la[i].v == lb[i].v || std::abs(la[i].v - lb[i].v) <= tol + 1e-10*std::max(std::abs(la[i].v), la[i].scale) + 1e-18; };
   bool ok = true;
   for (std::size_t i = 0; i < la.size(); ++i) ok = ok && agree(i, 0);
   g.nontrivial();
   if (ok) return;
   g.label("needs noise estimate");
   std::vector<double> noise(la.size(), 0);
   const double inf = std::numeric_limits<double>::infinity();
   bool tied = false;
   for (int k = 0; k < 28; ++k) {
      const double rel = k < 12 ? 4e-16 : k < 20 ? 3e-14 : 3e-12, fac = k < 12 ? 100 : k < 20 ? 3 : 1;
      const List& l0 = k % 2 ? lb : la;
      List l; if (!(k % 2 ? eb : ea)(res::jitter(g, p, rel), l) || l.size() != la.size()) g.discard();
      if (discrete(l) != discrete(l0)) tied = true;
      for (std::size_t i = 0; i < l.size(); ++i) {
         const double d = std::isnan(l[i].v) && std::isnan(l0[i].v) ? 0 : std::abs(l[i].v - l0[i].v)*fac;
         noise[i] = std::isnan(d) ? inf : std::max(noise[i], d);
      }
   }
   if (!tied && discrete(la) != discrete(lb)) {
      Parameters q = p; q.validate(false);
      const auto m = sel::masses(q, ab);
      if (sel::border(m)) tied = true;
      const auto c = sel::candidates(q, ab); const int b = sel::best(c); int n = 0;
      for (const auto& x : c) n += x.measure <= c[b].measure*(1 + 1e-6) + 1e-9 || x.noise > 1e-8;
      if (n > 1) tied = true;
   }
   if (tied) g.label("tied hierarchies or limits");
   bool limits = false, known = false;
   const auto n6b = [](double h) { return h >= 7 && h <= 10; };
   { const Parameters q = image(p); limits = limit(p, false) != limit(q, false) || limit(p, true) != limit(q, true); }
   if (limits) g.label("limit depends on rounding");
   // vanishing stop or sbottom mixing is replaced by sin(theta) = +-1e-5 in
   // the two-loop O(at^2) corrections; its sign is a matter of rounding
   bool regular = true;
   for (const bool im : {false, true}) {
      Parameters q = im ? image(p) : p; q.validate(false);
      for (double x : {q.s2t, q.s2b}) if (std::abs(x) < 4e-5) regular = false;
   }
   if (!regular) g.label("vanishing squark mixing");
   for (std::size_t i = 0; i < la.size(); ++i) {
      const auto& n = la[i].name;
      if (tied && discrete(la) != discrete(lb) && hierarchyDependent(n)) continue;
      if (!regular && (starts(n, "FO 2L") || starts(n, "FOAt 2L") || starts(n, "DMh2FO"))) continue;
      if (limits && (starts(n, "DLambda") || starts(n, "DMh2EFT") || starts(n, "threshold") || starts(n, "MSbar") || starts(n, "EFT") || n == "limit")) continue;
      if (!agree(i, noise[i]) && n6b(discrete(la)) && has(n, "(3)")+has(n, "DLambdaH3m")+has(n, "DLambdaEFT")+has(n, "DLambdaNonLog") + starts(n, "DMhDR") > 0) { known = true; continue; }
      if (!agree(i, noise[i])) g.fail(cat(n, " = ", la[i].v, ", after the transformation (undone in the result) ", lb[i].v, " (tolerance ", noise[i] + 1e-10*std::abs(la[i].v), ")"));
   }
   if (known) g.known("h6b-squark-mass-difference", "three-loop results of the hierarchies h6b, h6b2qg2, h6bq22g, h6bq2g2 are not covariant");
}

/// numbers of the three-loop calculator
bool evalDMh3L(const Parameters& p, bool ab, List& l) { const auto r = res::run(p, ab); l = r.l; return r.ok; }

/// threshold corrections and effective-theory corrections
bool evalEFT(const Parameters& p, List& l, bool strong = true)
{
   using namespace mh2_eft; using T = ThresholdCouplingOrders;
   l.clear();
   try {
      ThresholdCalculator tc(p, false);
      if (strong) res::add(l, "limit", (int)tc.getLimit(), 0);
      for (int o = 0; o < (int)T::NUMBER_OF_THRESHOLD_VARIALES; ++o) {
         if (!strong) { bool skip = false; for (T t : {T::G3_AS, T::YT_AS, T::YT_AS2, T::LAMBDA_AT_AS, T::LAMBDA_AT_AS2, T::LAMBDA_YB4_G32, T::YB_AS}) skip = skip || (int)t == o; if (skip) continue; }
         for (auto s : {RenSchemes::TEST, RenSchemes::DRBARPRIME}) for (int lg : {0, 1}) {
            double v; try { v = tc.getThresholdCorrection((T)o, s, lg); } catch (const std::exception&) { continue; }
            res::add(l, cat("threshold correction ", o, " scheme ", (int)s, " logs ", lg), v, 1);
         }
      }
      if (strong) for (int x : {4, 5, 6}) res::add(l, cat("MSbar shift ", x), tc.getDRbarPrimeToMSbarShift(x, 1, 1), 1);
      Mh2EFTCalculator c(p, false);
      for (int o = 0; o < CouplingOrders::NUMBER_OF_COUPLING_ORDERS; ++o) c.setCorrectionFlag((CouplingOrders::CouplingOrders)o, strong || (o != CouplingOrders::G32YB4 && o != CouplingOrders::G32YT4));
      const double t = c.getDeltaMh2EFT0Loop(); res::add(l, "EFT 0L", t, 0);
      for (int f : {0, 1}) { res::add(l, cat("EFT 1L ", f), c.getDeltaMh2EFT1Loop(1, f), 0); res::add(l, cat("EFT 2L ", f), c.getDeltaMh2EFT2Loop(1, f), 0); if (strong) res::add(l, cat("EFT 3L ", f), c.getDeltaMh2EFT3Loop(1, f, f), 0); }
   } catch (const std::exception&) { return false; }
   return true;
}

/// fixed-order calculator and tree-level spectrum
bool evalFO(const Parameters& p0, List& l, bool strong = true)
{
   using namespace mh2_fo;
   l.clear();
   try {
      Parameters p = p0; p.validate(false);
      const MSSM_spectrum s(p);
      const auto a = [&](const char* n, const auto& x) { double sc = 0; for (int i = 0; i < (int)x.size(); ++i) sc = std::max(sc, std::abs(x(i))); for (int i = 0; i < (int)x.size(); ++i) res::add(l, cat(n, "(", i, ")"), std::abs(x(i)), sc); };
      const auto h = [&](const char* n, double x, double sc) { res::add(l, n, x, sc); };
      h("M2VWm", s.M2VWm, 0); h("M2VZ", s.M2VZ, 0); h("MFt", s.MFt, 0); h("MFb", s.MFb, 0); h("MFtau", s.MFtau, 0);
      h("M2SveL", s.M2SveL, s.M2VZ); h("M2SvmL", s.M2SvmL, s.M2VZ); h("M2SvtL", s.M2SvtL, s.M2VZ);
      a("M2Su", s.M2Su); a("M2Sd", s.M2Sd); a("M2Sc", s.M2Sc); a("M2Ss", s.M2Ss); a("M2St", s.M2St); a("M2Sb", s.M2Sb); a("M2Se", s.M2Se); a("M2Sm", s.M2Sm); a("M2Stau", s.M2Stau);
      a("M2hh", s.M2hh); a("M2Hpm", s.M2Hpm); a("MChi", s.MChi); a("MCha", s.MCha);
      for (bool at : {false, true}) {
         MSSM_mass_eigenstates m(p, at);
         if (!strong) for (int o : {CouplingOrders::G32YB4, CouplingOrders::G32YT4}) m.set_correction((CouplingOrders::CouplingOrders)o, 0);
         const std::string n = at ? "FOAt " : "FO ";
         res::addM(l, n + "tree", m.get_mass_matrix_hh(), 0); res::addM(l, n + "gaugeless tree", m.get_mass_matrix_hh_gaugeless(), 0);
         res::addM(l, n + "1L(0)", m.delta_mh2_1loop(0), 0); res::addM(l, n + "1L(MZ2)", m.delta_mh2_1loop(2*s.M2VZ), 0);
         res::addM(l, n + "1L gaugeless", m.delta_mh2_1loop_gaugeless(), 0); res::addM(l, n + "2L", m.delta_mh2_2loop(), 0);
      }
   } catch (const std::exception&) { return false; }
   return true;
}

/// mass dimension of a result
int dimension(const std::string& n)
{
   for (const char* s : {"DMhExpUncertainty", "AbsDiff2L", "MDRMasses", "MF", "MC"}) if (starts(n, s)) return 1;
   for (const char* s : {"DMh", "EFT", "M2", "FO"}) if (starts(n, s)) return 2;
   return 0;
}

Parameters scaled(Parameters p, double f)
{
   for (double* x : {&p.scale, &p.mu, &p.vd, &p.vu, &p.M1, &p.M2, &p.MG, &p.MA, &p.MW, &p.MZ, &p.Mt, &p.Mb, &p.Mtau}) *x *= f;
   p.MSt *= f; p.MSb *= f; p.MStau *= f; p.Au *= f; p.Ad *= f; p.Ae *= f;
   for (auto* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2}) *m *= f*f;
   return p;
}

Parameters flipped(Parameters p)
{
   for (double* x : {&p.mu, &p.M1, &p.M2, &p.s2t, &p.s2b, &p.s2tau, &p.theta_t, &p.theta_b, &p.theta_tau}) *x = -*x;
   p.Au = -p.Au; p.Ad = -p.Ad; p.Ae = -p.Ae;
   return p;
}

Eval after(const std::function<Parameters(const Parameters&)>& f, const Eval& e, const std::function<double(const std::string&)>& factor)
{
   return [=](const Parameters& p, List& l) { if (!e(f(p), l)) return false; for (auto& v : l) { const double x = factor(v.name); v.v *= x; v.scale *= x; } return true; };
}

Parameters point(Gen& g, int pattern = -1)
{
   pt::Opt o; o.pattern = pattern;
   Parameters p = pt::make(g, o).p, q = p;
   qu::Silence s;
   try { q.validate(false); } catch (const std::exception&) { g.discard(); }
   if (g.coin(0.4)) p = q; // completed
   pt::note(g, p);
   return p;
}
const auto all = [](const std::string&) { return true; };
const auto one = [](const std::string&) { return 1.; };
} // namespace

VF_SUB("units: three-loop calculator", 20000, 400000)
{
   const Parameters p = point(g); const bool ab = g.coin(0.25); const double f = g.coin(0.3) ? g.pick({0.5, 2, 1000}) : g.logu(0.3, 1e3);
   g.note("factor", f); g.note("bottom", ab); qu::Silence s;
   const auto im = [f](const Parameters& q) { return scaled(q, f); };
   const Eval e = [ab](const Parameters& q, List& l) { return evalDMh3L(q, ab, l); };
   compare(g, p, e, after(im, e, [f](const std::string& n) { return std::pow(f, -dimension(n)); }), all, im, ab);
}

VF_SUB("units: threshold corrections and effective theory", 20000, 400000)
{
   const Parameters p = point(g); const double f = g.logu(0.3, 1e3); g.note("factor", f); qu::Silence s;
   const auto im = [f](const Parameters& q) { return scaled(q, f); };
   const Eval e = [](const Parameters& q, List& l) { return evalEFT(q, l); };
   compare(g, p, e, after(im, e, [f](const std::string& n) { return std::pow(f, -dimension(n)); }), all, im);
}

VF_SUB("units: fixed-order calculator", 10000, 200000)
{
   const Parameters p = point(g); const double f = g.logu(0.3, 1e3); g.note("factor", f); qu::Silence s;
   const auto im = [f](const Parameters& q) { return scaled(q, f); };
   const Eval e = [](const Parameters& q, List& l) { return evalFO(q, l); };
   compare(g, p, e, after(im, e, [f](const std::string& n) { return std::pow(f, -dimension(n)); }), all, im);
}

VF_SUB("signs: three-loop calculator", 15000, 300000)
{
   const Parameters p = point(g); const bool ab = g.coin(0.25); g.note("bottom", ab); qu::Silence s;
   const Eval e = [ab](const Parameters& q, List& l) { return evalDMh3L(q, ab, l); };
   compare(g, p, e, after(flipped, e, one), [](const std::string& n) { return n == "IsAlphab" || starts(n, "DMh(0)") || starts(n, "DMh(1)") || (starts(n, "DMh2") && (has(n, "(0)") || has(n, "(1)"))) || starts(n, "DLambda(0)") || starts(n, "DLambda(1)"); }, flipped, ab);
}

VF_SUB("signs: threshold corrections and effective theory", 15000, 300000)
{
   const Parameters p = point(g); qu::Silence s;
   const Eval e = [](const Parameters& q, List& l) { return evalEFT(q, l, false); };
   compare(g, p, e, after(flipped, e, one), all, flipped);
}

VF_SUB("signs: fixed-order calculator", 8000, 160000)
{
   const Parameters p = point(g); qu::Silence s;
   const Eval e = [](const Parameters& q, List& l) { return evalFO(q, l, false); };
   compare(g, p, e, after(flipped, e, one), all, flipped);
}

VF_SUB("parameters that do not enter", 20000, 400000)
{
   Parameters p = point(g); const bool ab = g.coin(0.25); g.note("bottom", ab); qu::Silence s;
   p.validate(false);
   const int what = g.below(ab ? 2 : 4); const double f = g.logu(0.2, 5), f2 = g.logu(0.2, 5), f3 = g.uni(-2, 2), f4 = g.uni(-2, 2);
   const int i = g.below(2), j = g.below(2), a = g.below(3), b = g.below(3);
   static const char* names[] = {"leptons and electroweak gauginos", "light squarks at fixed average", "bottom sector", "CP-odd Higgs mass"};
   g.label(names[what]); g.note("changed", names[what]); g.note("factor", f);
   const auto im = [=](Parameters q) {
      switch (what) {
      case 0: q.M1 *= f3; q.M2 *= f4; q.ml2 *= f; q.me2 *= f2; q.Ae *= f3; q.Mtau *= f4*f4; q.Ye(2,2) *= 1 + 0.1*f3; q.MStau *= f; q.s2tau *= 0.5; q.theta_tau *= 0.3; break;
      case 1: { Eigen::Matrix3d* m[] = {&q.mq2, &q.mu2, &q.md2}; const double w[] = {2, 1, 1}; (*m[a])(i,i) *= std::pow(f, 1/w[a]); (*m[b])(j,j) /= std::pow(f, 1/w[b]); break; }
      case 2: q.Ad *= f3; q.Yd(2,2) *= 1 + 0.1*f3; q.MSb *= f; q.s2b *= 0.5; q.theta_b *= 0.3; break;
      default: q.MA *= f;
      }
      return q; };
   const auto use = [=](const std::string& n) {
      if (what == 3) return starts(n, "DMh(1)") || starts(n, "DMh(2)") || starts(n, "DMh(3)") || starts(n, "DLambda") || starts(n, "MDRMasses") || starts(n, "DMhDR");
      return !starts(n, "DMh2FO(") && !(what == 2 && starts(n, "DMh2FOAt")); };
   const Eval e = [ab](const Parameters& q, List& l) { return evalDMh3L(q, ab, l); };
   List la, lb;
   if (!e(p, la) || !e(im(p), lb)) g.discard(); // tachyons in the fixed-order calculation
   if (what == 3 && discrete(la) != discrete(lb)) g.discard();
   compare(g, p, e, after(im, e, one), use, im, ab);
}

VF_SUB("powers of the strong coupling", 15000, 300000)
{
   Parameters p = point(g); const bool ab = g.coin(0.25); const double f = g.logu(0.01, 3); g.note("bottom", ab); g.note("factor", f); qu::Silence s;
   p.validate(false);
   const auto im = [=](Parameters q) { q.g3 *= f; return q; };
   const Eval e = [ab](const Parameters& q, List& l) { return evalDMh3L(q, ab, l); };
   List la, lb;
   if (!e(p, la) || !e(im(p), lb) || discrete(la) != discrete(lb)) g.discard();
   compare(g, p, e, after(im, e, [f](const std::string& n) { return starts(n, "DMh(2)") ? std::pow(f, -2) : starts(n, "DMh(3)") ? std::pow(f, -4) : 1.; }), [](const std::string& n) { return starts(n, "DMh(") || starts(n, "DMh2(0)") || starts(n, "DMh2(1)") || n == "hierarchy"; }, im, ab);
}
