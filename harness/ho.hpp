// model of the result object
#pragma once
#include "vf.hpp"
#include "himalaya/HierarchyObject.hpp"
#include <array>
#include <cstring>
#include <limits>
#include <utility>

namespace ho {
using himalaya::HierarchyObject;
using M2 = Eigen::Matrix2d;
using V2 = Eigen::Vector2d;

inline bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

/// plain record, the reference model
struct Model {
   bool isAlphab; int hierarchy = 0, mdrFlag = 0, ren = 1;
   double absDiff = 0, relDiff = 0, lamH3m = 0, lamEFT = 0, lamNonLog = 0, lamXt = 0;
   double unc[4]{}, mh2[4]{}, lam[4]{}, shift[4]{}, eft[4]{}, fo[4]{}, foat[4]{};
   double mh[4][4]{}, mdrShift[4]{}, h3mShift[4]{}, mdr[2]{};
};

inline double value(vf::Gen& g)
{
   switch (g.below(8)) {
   case 0: return g.pick({0, -0.0, 1, -1});
   case 1: return g.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 5e-324, 1.7976931348623157e308});
   case 2: return g.sign()*g.logu(1e-300, 1e300);
   default: return g.sign()*g.logu(1e-8, 1e8);
   }
}

inline int badloop(vf::Gen& g, int lo)
{
   switch (g.below(5)) {
   case 0: return 4;
   case 1: return lo - 1;
   case 2: return g.coin() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
   case 3: return 4 + g.below(1000);
   default: return lo - 1 - g.below(1000);
   }
}

/// compares every getter with the model
inline void compare(vf::Gen& g, const HierarchyObject& o, const Model& m, const char* who)
{
   const auto eq = [&](const std::string& what, double a, double b) { if (!same(a, b)) g.fail(vf::cat(who, ": ", what, " is ", a, ", assigned ", b)); };
   const auto eqi = [&](const std::string& what, int a, int b) { if (a != b) g.fail(vf::cat(who, ": ", what, " is ", a, ", assigned ", b)); };
   eqi("IsAlphab", o.getIsAlphab(), m.isAlphab);
   eqi("SuitableHierarchy", o.getSuitableHierarchy(), m.hierarchy);
   eqi("MDRFlag", o.getMDRFlag(), m.mdrFlag);
   eqi("RenormalizationScheme", o.getRenormalizationScheme(), m.ren);
   eq("AbsDiff2L", o.getAbsDiff2L(), m.absDiff); eq("RelDiff2L", o.getRelDiff2L(), m.relDiff);
   eq("DLambdaH3m", o.getDLambdaH3m(), m.lamH3m); eq("DLambdaEFT", o.getDLambdaEFT(), m.lamEFT); eq("DLambdaNonLog", o.getDLambdaNonLog(), m.lamNonLog);
   for (int l = 0; l <= 3; ++l) {
      const std::string k = vf::cat("(", l, ")");
      if (l) eq("DMhExpUncertainty" + k, o.getDMhExpUncertainty(l), m.unc[l]);
      eq("DMh2" + k, o.getDMh2(l), m.mh2[l]); eq("DLambda" + k, o.getDLambda(l), m.lam[l]);
      eq("DLambdaDRbarPrimeToMSbarShift" + k, o.getDLambdaDRbarPrimeToMSbarShift(l), m.shift[l]);
      eq("DMh2EFTAt" + k, o.getDMh2EFTAt(l), m.eft[l]); eq("DMh2FO" + k, o.getDMh2FO(l), m.fo[l]); eq("DMh2FOAt" + k, o.getDMh2FOAt(l), m.foat[l]);
      for (int i = 0; i < 4; ++i) eq(vf::cat("DMh", k, "(", i/2, ",", i%2, ")"), o.getDMh(l)(i/2, i%2), m.mh[l][i]);
      const double u = o.getDLambdaUncertainty(l);
      if (l < 3) eq("DLambdaUncertainty" + k, u, 0);
      else {
         const double ref = std::abs(m.lamXt) + std::abs(m.lamEFT - m.lamH3m);
         if (!(u == ref) && !(std::isnan(u) && std::isnan(ref))) g.fail(vf::cat(who, ": DLambdaUncertainty(3) = ", u, ", expected |Xt part| + |EFT - H3m| = ", ref));
      }
   }
   for (int i = 0; i < 4; ++i) {
      eq("DMhDRbarPrimeToMDRbarPrimeShift", o.getDMhDRbarPrimeToMDRbarPrimeShift()(i/2, i%2), m.mdrShift[i]);
      eq("DMhDRbarPrimeToH3mShift", o.getDMhDRbarPrimeToH3mShift()(i/2, i%2), m.h3mShift[i]);
   }
   for (int i = 0; i < 2; ++i) eq("MDRMasses", o.getMDRMasses()(i), m.mdr[i]);
}

/// one random assignment to object and model
inline void assign(vf::Gen& g, HierarchyObject& o, Model& m, std::string& log)
{
   const int l = g.below(4); const double v = value(g);
   const auto mat = [&](double* d) { M2 x; for (int i = 0; i < 4; ++i) { const double w = i ? value(g) : v; x(i/2, i%2) = w; d[i] = w; } return x; };
   const int op = g.below(18);
   switch (op) {
   case 0: { const int h = g.coin(0.8) ? g.below(14) : (int)g.bits(); o.setSuitableHierarchy(h); m.hierarchy = h; break; }
   case 1: o.setAbsDiff2L(v); m.absDiff = v; break;
   case 2: o.setRelDiff2L(v); m.relDiff = v; break;
   case 3: { const int k = 1 + g.below(3); o.setDMhExpUncertainty(k, v); m.unc[k] = v; break; }
   case 4: o.setDMhDRbarPrimeToMDRbarPrimeShift(mat(m.mdrShift)); break;
   case 5: { const double w = value(g); o.setMDRMasses(V2(v, w)); const bool sw = v > w; m.mdr[0] = sw ? w : v; m.mdr[1] = sw ? v : w; break; }
   case 6: o.setDMh(l, mat(m.mh[l])); break;
   case 7: o.setDMh2(l, v); m.mh2[l] = v; break;
   case 8: { const int f = g.below(2); o.setMDRFlag(f); m.mdrFlag = f; break; }
   case 9: { const int f = g.below(4); o.setRenormalizationScheme(f); m.ren = f; break; }
   case 10: o.setDLambda(l, v); m.lam[l] = v; break;
   case 11: o.setDLambdaDRbarPrimeToMSbarShift(l, v); m.shift[l] = v; break;
   case 12: o.setDLambdaH3m(v); m.lamH3m = v; break;
   case 13: o.setDLambdaEFT(v); m.lamEFT = v; break;
   case 14: o.setDLambdaNonLog(v); m.lamNonLog = v; break;
   case 15: o.setDLambdaXtUncertainty(v); m.lamXt = v; break;
   case 16: o.setDMhDRbarPrimeToH3mShift(mat(m.h3mShift)); break;
   default:
      switch (g.below(3)) {
      case 0: o.setDMh2EFT(l, v); m.eft[l] = v; break;
      case 1: o.setDMh2FO(l, v); m.fo[l] = v; break;
      default: o.setDMh2FOAt(l, v); m.foat[l] = v;
      }
   }
   log += vf::cat("set", op, ",", l, " ");
}
} // namespace ho
