// All numbers of a result object / of the library's calculators as a named
// list, and comparison of two such lists with a noise estimate.
#pragma once
#include "point.hpp"
#include "vf.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include <cmath>
#include <cstring>
#include <string>
#include <vector>

namespace res {
using himalaya::HierarchyObject;
using himalaya::Parameters;

struct Value { std::string name; double v; double scale; }; ///< scale: natural magnitude for absolute errors
using List = std::vector<Value>;

inline void add(List& l, const std::string& n, double v, double sc) { l.push_back({n, v, sc}); }
inline void addM(List& l, const std::string& n, const Eigen::Matrix2d& m, double sc)
{
   const double s = std::max(sc, m.cwiseAbs().maxCoeff());
   add(l, n + "(0,0)", m(0,0), s); add(l, n + "(0,1)", m(0,1), s); add(l, n + "(1,0)", m(1,0), s); add(l, n + "(1,1)", m(1,1), s);
}

/// all entries of a result object
inline List dump(const HierarchyObject& o)
{
   List l;
   add(l, "IsAlphab", o.getIsAlphab(), 0); add(l, "hierarchy", o.getSuitableHierarchy(), 0);
   add(l, "MDRFlag", o.getMDRFlag(), 0); add(l, "RenormalizationScheme", o.getRenormalizationScheme(), 0);
   for (int i = 0; i < 4; ++i) addM(l, vf::cat("DMh(", i, ")"), o.getDMh(i), 0);
   const double m2 = std::abs(o.getDMh2(0)) + std::abs(o.getDMh2(1));
   add(l, "AbsDiff2L", o.getAbsDiff2L(), std::sqrt(m2)); add(l, "RelDiff2L", o.getRelDiff2L(), 1);
   for (int i = 1; i < 4; ++i) add(l, vf::cat("DMhExpUncertainty(", i, ")"), o.getDMhExpUncertainty(i), std::sqrt(m2));
   const auto four = [&](const char* n, auto f, double s0) { for (int i = 0; i < 4; ++i) add(l, vf::cat(n, "(", i, ")"), f(i), s0); };
   four("DMh2", [&](int i) { return o.getDMh2(i); }, 0);
   four("DMh2EFT", [&](int i) { return o.getDMh2EFTAt(i); }, 0);
   four("DMh2FO", [&](int i) { return o.getDMh2FO(i); }, 0);
   four("DMh2FOAt", [&](int i) { return o.getDMh2FOAt(i); }, 0);
   four("DLambda", [&](int i) { return o.getDLambda(i); }, 0);
   four("DLambdaUncertainty", [&](int i) { return o.getDLambdaUncertainty(i); }, std::abs(o.getDLambdaEFT()) + std::abs(o.getDLambdaH3m()));
   four("DLambdaDRbarPrimeToMSbarShift", [&](int i) { return o.getDLambdaDRbarPrimeToMSbarShift(i); }, 0);
   add(l, "DLambdaH3m", o.getDLambdaH3m(), 0); add(l, "DLambdaEFT", o.getDLambdaEFT(), 0); add(l, "DLambdaNonLog", o.getDLambdaNonLog(), std::abs(o.getDLambdaH3m()));
   addM(l, "DMhDRbarPrimeToMDRbarPrimeShift", o.getDMhDRbarPrimeToMDRbarPrimeShift(), 0);
   addM(l, "DMhDRbarPrimeToH3mShift", o.getDMhDRbarPrimeToH3mShift(), 0);
   add(l, "MDRMasses(0)", o.getMDRMasses()(0), 0); add(l, "MDRMasses(1)", o.getMDRMasses()(1), 0);
   return l;
}

inline bool bitEqual(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

/// bit-by-bit comparison; returns the name of the first difference
inline std::string firstDifference(const List& a, const List& b)
{
   for (std::size_t i = 0; i < a.size(); ++i)
      if (!bitEqual(a[i].v, b[i].v)) return vf::cat(a[i].name, ": ", a[i].v, " and ", b[i].v);
   return {};
}

/// runs one calculation; false if it throws
struct Run { bool ok = false; std::string what; List l; int h = -1; };
inline Run run(const Parameters& p, bool alphab)
{
   Run r;
   try { himalaya::HierarchyCalculator hc(p, false); const auto o = hc.calculateDMh3L(alphab); r.l = dump(o); r.h = o.getSuitableHierarchy(); r.ok = true; }
   catch (const std::exception& e) { r.what = e.what(); }
   return r;
}

/// relative jitter of every input, for the estimation of rounding noise
inline Parameters jitter(vf::Gen& g, Parameters p, double rel = 4e-16)
{
   const auto j = [&](double& x) { x *= 1 + rel*g.range(-3, 3); };
   for (double* x : {&p.scale, &p.mu, &p.g1, &p.g2, &p.g3, &p.vd, &p.vu, &p.M1, &p.M2, &p.MG, &p.MA, &p.MW, &p.MZ, &p.Mt, &p.Mb, &p.Mtau}) j(*x);
   for (double* x : {&p.s2t, &p.s2b, &p.s2tau}) { j(*x); if (std::abs(*x) > 1) *x /= std::abs(*x); }
   for (double* x : {&p.theta_t, &p.theta_b, &p.theta_tau}) *x += rel*(g.coin() ? 3 : -3);
   for (int i = 0; i < 2; ++i) { j(p.MSt(i)); j(p.MSb(i)); j(p.MStau(i)); }
   for (auto* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2, &p.Au, &p.Ad, &p.Ae, &p.Yu, &p.Yd, &p.Ye}) for (int i = 0; i < 9; ++i) if ((*m)(i) != 0) j((*m)(i));
   return p;
}
} // namespace res
