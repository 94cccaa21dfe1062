// C07: the parts of a result object are mutually consistent.
#include "results.hpp"
#include "sel.hpp"

using namespace vf;
using namespace himalaya;
using mh2_eft::RenSchemes;
using mh2_eft::ThresholdCouplingOrders;

static Info info(
   "a case is one accepted point and the top or the bottom variant; the result object of calculateDMh3L is compared entry by entry with the documented combination of the other entries, of the public calculators evaluated at the same point, and of the frozen long double reference of the three-loop expansions; "
   "non-trivial: a hierarchy was found and all entries are numbers",
   {"oracle: own perturbation theory in long double for the eigenvalues; the documented relations among entries; fresh effective-theory, threshold and fixed-order calculators for the entries that are defined by them; frozen reference (/verif/ref) for the expanded three-loop parts",
    "tolerance 1e-9 of the natural scale of an entry; if exceeded, 300 times the variation of the difference over 8 neighbouring points (relative distance 1e-10) is allowed, for ill-conditioned points",
    "the two-loop shift of the quartic coupling to the other scheme is a known finding: only the exact defective formula or the correct one is accepted"});

struct Item { std::string name; double lib, ref, scale; };
using Items = std::vector<Item>;

static const double pi = 3.14159265358979323846;

struct Known { double wrong = 0, right = 0, lib = 0; };

static bool collect(const Parameters& raw, bool ab, Items& r, HierarchyObject* out, Known* kn)
{
   r.clear();
   Parameters p = raw;
   try { p.validate(false); } catch (const std::exception&) { return false; }
   HierarchyCalculator hc(raw, false);
   HierarchyObject o(ab);
   try { o = hc.calculateDMh3L(ab); } catch (const std::exception&) { return false; }
   if (out) *out = o;
   const int h = o.getSuitableHierarchy();
   const auto add = [&](const std::string& n, double lib, double ref, double sc = 0) { r.push_back({n, lib, ref, std::max({std::abs(ref), sc, 1e-300})}); };
   const auto addM = [&](const std::string& n, const Eigen::Matrix2d& a, const Eigen::Matrix2d& b, double sc = 0) {
      sc = std::max(sc, b.cwiseAbs().maxCoeff());
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) add(cat(n, "(", i, ",", j, ")"), a(i,j), b(i,j), sc); };
   add("IsAlphab", o.getIsAlphab(), ab); add("MDRFlag", o.getMDRFlag(), 0); 
   // --- matrices
   for (int i = 0; i < 4; ++i) add(cat("DMh(", i, ") asymmetry"), o.getDMh(i)(0,1), o.getDMh(i)(1,0));
   addM("DMh(0)", o.getDMh(0), sel::tree(p));
   const vref::In x = refin::in(p, ab);
   const auto f = refin::flags();
   const auto H3m = sel::mat(vref::shiftH3m(x, h, x.M1, x.M2));
   const Eigen::Matrix2d exp3 = sel::mat(vref::calculateHierarchy(x, h, 0, 0, 0, 1, f));
   if (!ab) {
      addM("DMh(1)", o.getDMh(1), sel::mat(vref::oneLoopAt(x, x.M1, x.M2)));
      // the sum is an ingredient, the shift of the expansions is checked in C11
      addM("DMh(3)", o.getDMh(3), exp3 - o.getDMhDRbarPrimeToH3mShift(), H3m.cwiseAbs().maxCoeff());
      // for nearly equal stop masses the library uses the limit
      if (std::abs(p.MSt(0) - p.MSt(1)) > 0.02*p.MSt(1)) addM("DMhDRbarPrimeToH3mShift", o.getDMhDRbarPrimeToH3mShift(), -H3m);
   } else {
      addM("DMh(3)", o.getDMh(3), exp3 - o.getDMhDRbarPrimeToH3mShift());
   }
   { HierarchyObject w(ab); w.setMDRFlag(0); w.setSuitableHierarchy(h);
     addM("DMh(1) as returned by the calculator", o.getDMh(1), hc.getMt41L(w, 0, 0)); addM("DMh(2)", o.getDMh(2), hc.getMt42L(w, 0, 0));
     add("DMhExpUncertainty(1)", o.getDMhExpUncertainty(1), 0, 1e-6);
     const Eigen::Matrix2d m = o.getDMh(0) + o.getDMh(1) + o.getDMh(2);
     add("DMhExpUncertainty(3)", o.getDMhExpUncertainty(3), hc.getExpansionUncertainty(w, m, 0, 0, 1), 1e-3); }
   // --- perturbative eigenvalues
   {
      using R = long double;
      const auto& m0 = o.getDMh(0);
      const R T = (R)m0(0,0) + m0(1,1), D = (R)m0(0,0) - m0(1,1), off = m0(0,1), rr = sqrtl(D*D + 4*off*off);
      const R l0 = (T - rr)/2, dl = -rr; // l0 - l1
      const R th = 0.5L*atan2l(2*off, D); // eigenvector of the larger eigenvalue: (cos, sin)
      const R c = cosl(th), s = sinl(th);
      const auto el = [&](int k, R& a, R& b, R& d) { const auto& m = o.getDMh(k); a = s*s*m(0,0) - 2*s*c*m(0,1) + c*c*m(1,1); b = -s*c*m(0,0) + (c*c - s*s)*m(0,1) + s*c*m(1,1); b = -s*c*(R)m(0,0) + (c*c - s*s)*(R)m(0,1) + s*c*(R)m(1,1); d = c*c*m(0,0) + 2*s*c*m(0,1) + s*s*m(1,1); };
      R a1, b1, d1, a2, b2, d2, a3, b3, d3; el(1, a1, b1, d1); el(2, a2, b2, d2); el(3, a3, b3, d3);
      add("DMh2(0)", o.getDMh2(0), l0, (double)std::max(R(1), 1e-7L*rr));
      add("DMh2(1)", o.getDMh2(1), a1, o.getDMh(1).cwiseAbs().maxCoeff());
      const double s2 = o.getDMh(1).squaredNorm()/(double)rr;
      add("DMh2(2)", o.getDMh2(2), a2 + b1*b1/dl, o.getDMh(2).cwiseAbs().maxCoeff() + s2);
      add("DMh2(3)", o.getDMh2(3), a3 + 2*b1*b2/dl + b1*b1*(d1 - a1)/(dl*dl), o.getDMh(3).cwiseAbs().maxCoeff() + s2*o.getDMh(1).norm()/(double)rr + 2*o.getDMh(1).norm()*o.getDMh(2).norm()/(double)rr);
   }
   add("DMh2FO(3)", o.getDMh2FO(3), o.getDMh2(3)); add("DMh2FOAt(3)", o.getDMh2FOAt(3), o.getDMh2(3)); add("DMh2FOAt(0)", o.getDMh2FOAt(0), 0);
   // --- fixed order
   {
      mh2_fo::MSSM_mass_eigenstates a(p), b(p, true);
      const auto ra = a.calculate_Mh2(), rb = b.calculate_Mh2();
      add("DMh2FO(0)", o.getDMh2FO(0), std::get<0>(ra), 1); add("DMh2FO(1)", o.getDMh2FO(1), std::get<1>(ra), 1); add("DMh2FO(2)", o.getDMh2FO(2), std::get<2>(ra), 1);
      add("DMh2FOAt(1)", o.getDMh2FOAt(1), std::get<1>(rb), 1); add("DMh2FOAt(2)", o.getDMh2FOAt(2), std::get<2>(rb), 1);
   }
   // --- effective theory
   const double v2 = p.vu*p.vu + p.vd*p.vd, gt = std::sqrt(2/v2)*p.Mt;
   const double k = 1/(16*pi*pi);
   {
      mh2_eft::Mh2EFTCalculator e(p, false);
      add("DMh2EFT(0)", o.getDMh2EFTAt(0), e.getDeltaMh2EFT0Loop(), 1); add("DMh2EFT(1)", o.getDMh2EFTAt(1), e.getDeltaMh2EFT1Loop(1, 1), 1); add("DMh2EFT(2)", o.getDMh2EFTAt(2), e.getDeltaMh2EFT2Loop(1, 1), 1);
      add("DMh2EFT(3)", o.getDMh2EFTAt(3), e.getDeltaMh2EFT3Loop(1, 1, 0) + v2*o.getDLambda(3), 1);
   }
   Parameters q = p; q.mu2(2,2) = p.MSt(0)*p.MSt(0); q.mq2(2,2) = p.MSt(1)*p.MSt(1);
   mh2_eft::ThresholdCalculator tc(q, false);
   const auto th = [&](ThresholdCouplingOrders c, RenSchemes s, int l) { return tc.getThresholdCorrection(c, s, l); };
   const double p1 = k*std::pow(p.Mt*gt, 2), p2 = k*p1*p.g3*p.g3, p3 = k*p2*p.g3*p.g3;
   const double z2 = std::pow(p.MZ*(p.vu*p.vu - p.vd*p.vd)/v2, 2);
   add("DLambda(0)", o.getDLambda(0), z2/v2, 1e-6*p.MZ*p.MZ/v2);
   const double d1 = p1/v2*th(ThresholdCouplingOrders::LAMBDA_AT, RenSchemes::DRBARPRIME, 1), d2 = p2/v2*th(ThresholdCouplingOrders::LAMBDA_AT_AS, RenSchemes::DRBARPRIME, 1);
   add("DLambda(1)", o.getDLambda(1), d1, p1/v2); add("DLambda(2)", o.getDLambda(2), d2, p2/v2);
   add("DLambdaDRbarPrimeToMSbarShift(0)", o.getDLambdaDRbarPrimeToMSbarShift(0), 0); add("DLambdaDRbarPrimeToMSbarShift(1)", o.getDLambdaDRbarPrimeToMSbarShift(1), 0);
   const double s3 = p3/v2;
   if (!ab) {
      add("DLambda(3)", o.getDLambda(3), o.getDLambdaEFT());
      const int xo = h <= sel::h3q22g || h == sel::h9 || h == sel::h9q2 ? 3 : 4;
      add("DLambdaDRbarPrimeToMSbarShift(3)", o.getDLambdaDRbarPrimeToMSbarShift(3), s3*tc.getDRbarPrimeToMSbarShift(xo, 1, 0), 10*s3);
      // logarithms
      const auto full = ThresholdCouplingOrders::LAMBDA_AT_AS2;
      const double t1 = th(full, RenSchemes::DRBARPRIME, 1), t0 = th(full, RenSchemes::DRBARPRIME, 0);
      add("DLambdaEFT - DLambdaNonLog", o.getDLambdaEFT() - o.getDLambdaNonLog(), s3*(t1 - t0), s3*(std::abs(t1) + std::abs(t0)) + std::abs(o.getDLambdaEFT()));
      const double xt = xo == 3 ? std::abs(s3*tc.getDRbarPrimeToMSbarXtTerms(tc.getLimit(), 4, 1)) : 0;
      add("DLambdaUncertainty(3)", o.getDLambdaUncertainty(3), xt + std::abs(o.getDLambdaEFT() - o.getDLambdaH3m()), std::abs(o.getDLambdaEFT()) + std::abs(o.getDLambdaH3m()));
      // expanded parts
      mh2_eft::Mh2EFTCalculator e(q, false);
      for (int i = 0; i < CouplingOrders::NUMBER_OF_COUPLING_ORDERS; ++i) e.setCorrectionFlag((CouplingOrders::CouplingOrders)i, 0);
      e.setCorrectionFlag(CouplingOrders::YT4, 1); e.setCorrectionFlag(CouplingOrders::G32YT4, 1); e.setCorrectionFlag(CouplingOrders::ONLY_AT_AS, 1);
      const auto L = vref::lambdaLogs(x, h, 0, f);
      if (std::abs(p.MSt(0) - p.MSt(1)) > 0.02*p.MSt(1)) {
         double mag = 0; for (int i = 0; i < 4; ++i) mag += std::abs((double)(L.c[i]*powl(L.lm1, i)));
         const double sa = e.getDeltaMh2EFT3Loop(0, 1, 0), sb = e.getDeltaMh2EFT3Loop(0, 0, 0);
         add("DLambdaH3m", o.getDLambdaH3m(), (p3*(double)(L.sum() + vref::shiftH3mMh2(x, h, 1)) - sa)/v2, s3*mag + std::abs(sa)/v2);
         add("DLambdaNonLog", o.getDLambdaNonLog(), (p3*(double)(L.c[0] + vref::shiftH3mMh2(x, h, 0)) - sb)/v2, s3*mag + std::abs(sb)/v2);
      }
      // scheme conversion: the shift turns the coupling into the one of the other scheme
      const double right = p2/v2*(th(ThresholdCouplingOrders::LAMBDA_AT_AS, RenSchemes::TEST, 1) - th(ThresholdCouplingOrders::LAMBDA_AT_AS, RenSchemes::DRBARPRIME, 1));
      const double wrong = p2/v2*(-4*d1*th(ThresholdCouplingOrders::YT_AS, RenSchemes::DRBARPRIME, 1));
      if (kn) *kn = {wrong, right, o.getDLambdaDRbarPrimeToMSbarShift(2)};
   } else {
      add("DLambdaDRbarPrimeToMSbarShift(2)", o.getDLambdaDRbarPrimeToMSbarShift(2), 0);
      add("DLambda(3)", o.getDLambda(3), 0); add("DLambdaH3m", o.getDLambdaH3m(), 0); add("DLambdaEFT", o.getDLambdaEFT(), 0); add("DLambdaNonLog", o.getDLambdaNonLog(), 0);
      add("DLambdaUncertainty(3)", o.getDLambdaUncertainty(3), 0); add("DLambdaDRbarPrimeToMSbarShift(3)", o.getDLambdaDRbarPrimeToMSbarShift(3), 0);
   }
   for (int i = 0; i < 3; ++i) add(cat("DLambdaUncertainty(", i, ")"), o.getDLambdaUncertainty(i), 0);
   // --- the other scheme
   {
      HierarchyObject w(ab); w.setMDRFlag(1); w.setSuitableHierarchy(h);
      const auto m2 = vref::mdrMasses2(x, h, 1, 1);
      if (m2.m1 > 0 && m2.m2 > 0 && (ab || std::abs(p.MSt(0) - p.MSt(1)) > 0.05*p.MSt(1))) {
         const double a = std::sqrt((double)m2.m1), b = std::sqrt((double)m2.m2);
         add("MDRMasses(0)", o.getMDRMasses()(0), std::min(a, b)); add("MDRMasses(1)", o.getMDRMasses()(1), std::max(a, b));
         if (!ab && std::abs(a - b) > 0.02*b) {
            const Eigen::Matrix2d d = sel::mat(vref::calculateHierarchy(x, h, 1, 0, 0, 1, f)) - exp3 + sel::mat(vref::shiftH3m(x, h, m2.m1 > 0 ? sqrtl(m2.m1) : 0, m2.m2 > 0 ? sqrtl(m2.m2) : 0)) + o.getDMhDRbarPrimeToH3mShift();
            HierarchyObject w1 = w;
            Eigen::Matrix2d c = hc.calcDRbarToMDRbarShift(w1, true, true);
            addM("DMhDRbarPrimeToMDRbarPrimeShift", o.getDMhDRbarPrimeToMDRbarPrimeShift(), c + d, o.getDMh(3).cwiseAbs().maxCoeff() + c.cwiseAbs().maxCoeff());
         }
      }
   }
   return true;
}

static void check(Gen& g, const Parameters& p, bool ab)
{
   Items a; HierarchyObject o(ab); Known kn;
   if (!collect(p, ab, a, &o, &kn)) g.discard();
   g.label(refin::name(o.getSuitableHierarchy()));
   std::vector<double> noise;
   const auto finite = [](const Item& i) { return !std::isnan(i.lib) || !std::isnan(i.ref); };
   bool all = true;
   const auto tolerance = [&](std::size_t i) {
      if (noise.empty()) {
         noise.assign(a.size(), 0);
         for (int k = 0; k < 8; ++k) {
            Items b; HierarchyObject w(ab);
            if (!collect(res::jitter(g, p, k < 4 ? 3e-11 : 3e-13), ab, b, &w, nullptr) || b.size() != a.size() || w.getSuitableHierarchy() != o.getSuitableHierarchy()) continue;
            for (std::size_t j = 0; j < a.size(); ++j) {
               const double d = std::abs((b[j].lib - b[j].ref) - (a[j].lib - a[j].ref));
               // at the border of a region without result
               if (std::isnan(a[j].lib) != std::isnan(a[j].ref)) { if (std::isnan(b[j].lib) == std::isnan(b[j].ref)) noise[j] = std::numeric_limits<double>::infinity(); continue; }
               if (std::isnan(d)) noise[j] = std::numeric_limits<double>::infinity(); else if (d > noise[j]) noise[j] = d;
            }
         }
      }
      return 300*noise[i];
   };
   for (std::size_t i = 0; i < a.size(); ++i) {
      if (!finite(a[i])) { all = false; continue; }
      const double d = std::abs(a[i].lib - a[i].ref);
      if (d <= 1e-9*a[i].scale) continue;
      const double t = tolerance(i);
      if (!(d <= t || std::isinf(t))) g.fail(cat(a[i].name, " = ", a[i].lib, ", should be ", a[i].ref, " (difference ", d, ", allowed ", 1e-9*a[i].scale + t, ")"));
   }
   if (!ab) {
      if (std::abs(kn.lib - kn.right) > 1e-8*std::abs(kn.right)) {
         if (std::abs(kn.lib - kn.wrong) <= 1e-8*std::abs(kn.wrong)) g.known("lambda-shift-2", "");
         else if (!std::isnan(kn.lib)) g.fail(cat("DLambdaDRbarPrimeToMSbarShift(2) = ", kn.lib, ", should be ", kn.right));
      }
   }
   if (all) g.nontrivial();
}

VF_SUB("spectrum from the soft parameters", 100000, 900000)
{
   const auto pp = pt::make(g);
   const bool ab = g.coin(0.25);
   g.note("bottom", ab); pt::note(g, pp.p);
   check(g, pp.p, ab);
}

VF_SUB("supplied masses", 60000, 600000)
{
   pt::Opt o; o.yuk = false;
   const auto pp = pt::make(g, o);
   Parameters p = pp.p;
   const double M = pp.MS;
   for (auto* m : {&p.MSt, &p.MSb}) { const double a = M*g.uni(0.3, 2); *m << a, a*(1 + (g.coin(0.3) ? g.logu(1e-3, 0.1) : g.uni(0.05, 2))); }
   p.theta_t = g.uni(-1.5, 1.5); p.theta_b = g.uni(-1.5, 1.5);
   p.MG = M*g.logu(0.2, 4);
   const double q = std::pow(std::max(p.MSt(1), p.MG)*g.logu(0.8, 8), 2);
   p.mq2 = pt::diag(q, q, p.mq2(2,2)); p.mu2 = pt::diag(q, q, p.mu2(2,2)); p.md2 = pt::diag(q, q, q);
   const bool ab = g.coin(0.25);
   g.note("bottom", ab); pt::note(g, p);
   check(g, p, ab);
}
