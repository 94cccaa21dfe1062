// C03: equivalent descriptions of one physical point give the same results.
#include <Eigen/Dense>
#include "results.hpp"
#include "sel.hpp"
#include <Eigen/Geometry>
#include <algorithm>

using namespace vf;
using namespace himalaya;
using res::List;

static Info info(
   "a case is one accepted parameter point, described with every optional value left open, and a second description obtained by a random chain of re-descriptions (completed copy; any subset of W, Z, t, b, tau masses supplied; sfermion sectors supplied with the angle, the angle shifted by pi, the sine of twice the angle, or with the masses in opposite order and the rotated angle or the negated sine; flavour rotation of the Yukawa matrices; exchange of the two light generations if their Yukawa couplings vanish); all numbers of both results are compared; "
   "non-trivial: at least one re-description beyond the completed copy was applied and a result exists",
   {"oracle: metamorphic; the tolerance is 1e-10 of the entry plus, for ill-conditioned points, the change caused by relative input changes between 1e-15 (times 100) and 3e-12 (maximum over 28 random ones, in both descriptions)",
    "points for which such tiny changes switch between hierarchies, or between throwing and not throwing, are discarded",
    "the sine of twice the angle determines the angle only within one octant pair, so it is supplied in the mass order in which it does"});

using Eval = std::function<bool(const Parameters&, List&)>;

static bool evalDMh3L(const Parameters& p, bool ab, List& l)
{
   const auto r = res::run(p, ab);
   l = r.l;
   return r.ok;
}

static bool evalEFT(const Parameters& p, List& l)
{
   using namespace mh2_eft;
   try {
      ThresholdCalculator tc(p, false);
      res::add(l, "limit", (int)tc.getLimit(), 0);
      for (int o = 0; o < (int)ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES; ++o)
         for (auto s : {RenSchemes::TEST, RenSchemes::DRBARPRIME}) for (int lg : {0, 1}) {
            double v; try { v = tc.getThresholdCorrection((ThresholdCouplingOrders)o, s, lg); } catch (const std::exception&) { continue; }
            res::add(l, cat("threshold correction ", o, " scheme ", (int)s, " logs ", lg), v, 1);
         }
      for (int x : {4, 5, 6}) res::add(l, cat("MSbar shift ", x), tc.getDRbarPrimeToMSbarShift(x, 1, 1), 1);
      Mh2EFTCalculator c(p, false);
      for (int o = 0; o < CouplingOrders::NUMBER_OF_COUPLING_ORDERS; ++o) c.setCorrectionFlag((CouplingOrders::CouplingOrders)o, 1);
      const double t = c.getDeltaMh2EFT0Loop(); res::add(l, "EFT 0L", t, 0);
      for (int f : {0, 1}) { res::add(l, cat("EFT 1L ", f), c.getDeltaMh2EFT1Loop(1, f), 0); res::add(l, cat("EFT 2L ", f), c.getDeltaMh2EFT2Loop(1, f), 0); res::add(l, cat("EFT 3L ", f), c.getDeltaMh2EFT3Loop(1, f, f), 0); }
   } catch (const std::exception&) { return false; }
   return true;
}

static Eigen::Matrix3d rotation(Gen& g)
{
   Eigen::Quaterniond q(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1));
   if (q.norm() < 1e-3) return Eigen::Matrix3d::Identity();
   return q.normalized().toRotationMatrix();
}

/// Yukawa matrix in another flavour basis: general, triangular, symmetric, permuted, one side only
static Eigen::Matrix3d otherBasis(Gen& g, const Eigen::Matrix3d& y)
{
   const auto upper = [](const Eigen::Matrix3d& m) { Eigen::HouseholderQR<Eigen::Matrix3d> qr(m); Eigen::Matrix3d r = qr.matrixQR().triangularView<Eigen::Upper>(); return r; };
   const Eigen::Matrix3d r = rotation(g), q = rotation(g);
   switch (g.below(8)) {
   case 0: return r*y;
   case 1: return y*q;
   case 2: return upper(r*y*q);
   case 3: return upper(r*y*q).transpose();
   case 4: return r*y*r.transpose();
   case 5: { Eigen::PermutationMatrix<3> a, b; a.setIdentity(); b.setIdentity(); std::swap(a.indices()[0], a.indices()[1 + g.below(2)]); std::swap(b.indices()[2], b.indices()[g.below(3)]); return a*y*b; }
   case 6: return Eigen::Vector3d(g.sign(), g.sign(), g.sign()).asDiagonal()*y;
   default: return r*y*q;
   }
}

/// entries that depend on the chosen hierarchy
static bool hierarchyDependent(const std::string& n)
{
   for (const char* s : {"hierarchy", "limit", "DMh(3)", "Diff2L", "ExpUncertainty", "DMh2(3)", "DMh2FO(3)", "DMh2FOAt(3)", "DMh2EFT(3)", "DLambda(3)", "DLambdaUncertainty(3)", "DLambdaDRbarPrimeToMSbarShift(3)", "DLambdaH3m", "DLambdaEFT", "DLambdaNonLog", "MDR", "H3mShift"})
      if (n.find(s) != std::string::npos) return true;
   return false;
}

/// formula chosen for the threshold corrections
static int limit(Parameters p, bool massEigenstates)
{
   p.validate(false);
   if (massEigenstates) { p.mu2(2,2) = p.MSt(0)*p.MSt(0); p.mq2(2,2) = p.MSt(1)*p.MSt(1); }
   return (int)mh2_eft::ThresholdCalculator(p, false).getLimit();
}

static void compare(Gen& g, const Parameters& a, const Parameters& b, const Eval& ev, const std::function<bool()>& tie)
{
   List la, lb;
   if (!ev(a, la)) { if (ev(b, lb)) {
         // a point on the border of acceptance?
         for (int k = 0; k < 4; ++k) { List l; if (ev(res::jitter(g, a, 1e-13), l)) g.discard(); }
         g.fail("first description throws, second does not"); }
      g.label("throws"); return; }
   if (!ev(b, lb)) {
      for (int k = 0; k < 4; ++k) { List l; if (!ev(res::jitter(g, a, 1e-13), l)) g.discard(); }
      g.fail("second description throws, first does not"); }
   if (la.size() != lb.size()) g.fail("different number of results");
   const auto discrete = [](const List& l) { return l.size() > 1 ? l[1].v : 0; };
   const auto both = [&](std::size_t i) { return std::isnan(la[i].v) && std::isnan(lb[i].v); };
   const auto agree = [&](std::size_t i, double tol) { return both(i) || std::abs(la[i].v - lb[i].v) <= tol + 1e-10*std::max(std::abs(la[i].v), la[i].scale) + 1e-18; };
   bool ok = true;
   for (std::size_t i = 0; i < la.size(); ++i) ok = ok && agree(i, 0);
   if (ok) return;
   g.label("needs noise estimate");
   // differences larger than 1e-10: are they due to an ill-conditioned point?
   std::vector<double> noise(la.size(), 0);
   bool tied = false;
   const double inf = std::numeric_limits<double>::infinity();
   for (int k = 0; k < 28; ++k) {
      const double rel = k < 12 ? 4e-16 : k < 20 ? 3e-14 : 3e-12, fac = k < 12 ? 100 : k < 20 ? 3 : 1;
      Parameters j = res::jitter(g, k % 2 ? b : a, rel);
      // vanishing mixing is approached from both sides
      for (double Parameters::*t : {&Parameters::theta_t, &Parameters::theta_b, &Parameters::theta_tau}) j.*t = (k % 2 ? b : a).*t + (k % 4 < 2 ? 4 : -4)*rel;
      List l; if (!ev(j, l) || l.size() != la.size()) g.discard();
      if (discrete(l) != discrete(la)) tied = true;
      for (std::size_t i = 0; i < l.size(); ++i) {
         const double d = both(i) && std::isnan(l[i].v) ? 0 : std::abs(l[i].v - la[i].v)*fac;
         noise[i] = std::isnan(d) ? inf : std::max(noise[i], d);
      }
   }
   if (!tied && discrete(la) != discrete(lb) && tie()) tied = true;
   if (tied) g.label("tied hierarchies or limits");
   // near degenerate spectra the library tests numerically whether the general
   // threshold corrections are stable; the outcome may depend on rounding
   const bool limits = limit(a, false) != limit(b, false) || limit(a, true) != limit(b, true);
   if (limits) g.label("limit depends on rounding");
   for (std::size_t i = 0; i < la.size(); ++i) {
      if (tied && discrete(la) != discrete(lb) && hierarchyDependent(la[i].name)) continue;
      if (limits && (la[i].name.find("DLambda") == 0 || la[i].name.find("DMh2EFT") == 0 || la[i].name.find("threshold") == 0 || la[i].name.find("MSbar") == 0 || la[i].name.find("EFT") == 0 || la[i].name == "limit")) continue;
      if (!agree(i, noise[i])) g.fail(cat("results differ for equivalent points: ", la[i].name, " = ", la[i].v, " and ", lb[i].v, " (tolerance ", noise[i], ")"));
   }
}

struct Pair { Parameters a, b; bool nt; };

static Pair make(Gen& g, int pattern = -1)
{
   pt::Opt o; o.pattern = pattern; o.yuk = g.coin();
   auto pp = pt::make(g, o);
   g.label(pt::name(pp.pattern));
   Parameters a = pp.p;
   if (g.coin(0.1)) { a.mq2(0,1) = a.mq2(1,0) = g.uni(0, 0.2)*a.mq2(0,0); a.mu2(1,2) = a.mu2(2,1) = g.uni(0, 0.2)*a.mu2(1,1); }
   Parameters q = a;
   try { q.validate(false); } catch (const std::exception&) { g.discard(); }
   Parameters b = a; bool nt = false;
   // with the masses supplied the sfermion masses are the completed ones
   if (g.coin(0.25)) { b = q; g.label("completed copy"); if (g.coin(0.3)) b.validate(false); }
   for (auto m : {std::make_pair(&Parameters::MW, "MW supplied"), std::make_pair(&Parameters::MZ, "MZ supplied"), std::make_pair(&Parameters::Mt, "Mt supplied"), std::make_pair(&Parameters::Mb, "Mb supplied"), std::make_pair(&Parameters::Mtau, "Mtau supplied")})
      if (g.coin(0.3)) { b.*m.first = q.*m.first; g.label(m.second); nt = true; }
   struct S { Eigen::Vector2d Parameters::*M; double Parameters::*s2; double Parameters::*th; };
   const double nan = std::numeric_limits<double>::quiet_NaN(), Pi = 3.141592653589793;
   for (const S& s : {S{&Parameters::MSt, &Parameters::s2t, &Parameters::theta_t}, S{&Parameters::MSb, &Parameters::s2b, &Parameters::theta_b}, S{&Parameters::MStau, &Parameters::s2tau, &Parameters::theta_tau}}) {
      if (g.coin(0.5)) continue;
      nt = true;
      double th = q.*(s.th); const double s2 = q.*(s.s2);
      b.*(s.M) = q.*(s.M); b.*(s.th) = nan; b.*(s.s2) = nan;
      const auto swap = [&] { std::swap((b.*(s.M))(0), (b.*(s.M))(1)); };
      switch (g.below(5)) {
      case 0: b.*(s.th) = th; g.label("angle supplied"); break;
      case 1: b.*(s.th) = th + (g.coin() ? Pi : -Pi); g.label("angle shifted by pi"); break;
      case 2: swap(); b.*(s.th) = th + (g.coin() ? Pi/2 : -Pi/2); g.label("opposite mass order, angle"); break;
      case 3: swap(); b.*(s.th) = th - Pi/2; b.*(s.s2) = -s2; g.label("opposite mass order, angle and sine"); break;
      default: { // sine only: determines the angle up to the octant
         const bool up = std::cos(2*th) < 0;
         if (up) { swap(); b.*(s.s2) = -s2; g.label("opposite mass order, sine"); } else { b.*(s.s2) = s2; g.label("sine supplied"); } }
      }
   }
   if (g.coin(0.3)) {
      b.Yu = otherBasis(g, b.Yu); b.Yd = otherBasis(g, b.Yd); b.Ye = otherBasis(g, b.Ye);
      g.label("flavour rotation"); nt = true;
   }
   if (a.Yu(1,1) == 0 && a.Yd(1,1) == 0 && a.Ye(1,1) == 0 && g.coin(0.3)) {
      for (auto* m : {&b.mq2, &b.md2, &b.mu2, &b.ml2, &b.me2}) { std::swap((*m)(0,0), (*m)(1,1)); std::swap((*m)(0,2), (*m)(1,2)); std::swap((*m)(2,0), (*m)(2,1)); }
      g.label("light generations exchanged"); nt = true;
   }
   pt::note(g, a); 
   g.note("2: masses", cat(b.MW, " ", b.MZ, " ", b.Mt, " ", b.Mb, " ", b.Mtau));
   g.note("2: stops", cat(b.MSt(0), " ", b.MSt(1), " ", b.s2t, " ", b.theta_t));
   g.note("2: sbottoms", cat(b.MSb(0), " ", b.MSb(1), " ", b.s2b, " ", b.theta_b));
   g.note("2: staus", cat(b.MStau(0), " ", b.MStau(1), " ", b.s2tau, " ", b.theta_tau));
   return {a, b, nt};
}

VF_SUB("calculateDMh3L", 120000, 1500000)
{
   const bool ab = g.coin(0.2);
   const auto p = make(g);
   g.note("bottom variant", ab);
   compare(g, p.a, p.b, [ab](const Parameters& x, List& l) { l.clear(); return evalDMh3L(x, ab, l); }, [&] {
      Parameters q = p.a; q.validate(false);
      const auto c = sel::candidates(q, ab); const int b = sel::best(c); int n = 0;
      if (sel::border(sel::masses(q, ab)) < 1e-9) return true;
      for (const auto& x : c) n += x.measure <= c[b].measure*(1 + 1e-6) + 1e-9 || x.noise > 1e-8;
      return n > 1; });
   if (p.nt) g.nontrivial();
}

VF_SUB("effective theory calculators", 80000, 1000000)
{
   const auto p = make(g);
   compare(g, p.a, p.b, [](const Parameters& x, List& l) { l.clear(); return evalEFT(x, l); }, [] { return false; });
   if (p.nt) g.nontrivial();
}
