// Model of the choice of the mass hierarchy, written from the documented
// error measure and the mass orderings, with the frozen long double reference
// for the expanded corrections.
#pragma once
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include "refin.hpp"
#include <Eigen/Core>
#include <cmath>
#include <vector>

namespace sel {
using himalaya::HierarchyCalculator;
using himalaya::HierarchyObject;
using himalaya::Parameters;

enum H { h3, h32q2g, h3q22g, h4, h5, h5g1, h6, h6b, h6b2qg2, h6bq22g, h6bq2g2, h6g2, h9, h9q2, NH };

struct Masses { double m1, m2, mg, mq; };

inline Masses masses(const Parameters& p, bool ab)
{
   return {ab ? p.MSb(0) : p.MSt(0), ab ? p.MSb(1) : p.MSt(1), p.MG, std::sqrt(std::abs(p.calculateMsq2()))};
}

/// smallest relative distance of a comparison of masses from a tie
inline double border(const Masses& m)
{
   double b = 1;
   const auto t = [&](double x, double y) { const double s = std::max(std::abs(x), std::abs(y)); if (s > 0) b = std::min(b, std::abs(x - y)/s); };
   t(m.m2, 1.3*m.mq); t(m.mg, 1.3*m.mq); t(m.mg, m.m2); t(m.m2, m.mq); t(m.m1, m.mq); t(m.m1, m.mg);
   t(m.m2 - m.m1, 0.1*m.m1); t(m.mg - m.m1, std::abs(m.mg - m.m2)); t(m.m2 - m.mg, std::abs(m.mg - m.m1)); t(1.3*m.m2, m.mq); t(m.m2 - m.m1, m.m1 - m.mg);
   return b;
}

/// is the ordering of the hierarchy compatible with the spectrum?
inline bool suitable(int h, const Masses& m)
{
   const double m1 = m.m1, m2 = m.m2, g = m.mg, q = m.mq;
   if (m2 > 1.3*q || g > 1.3*q) return false;
   const bool split = m2 - m1 > 0.1*m1;                     // stops not degenerate
   const bool nearLight = g - m1 < std::abs(g - m2);        // gluino belongs to the lighter stop
   const bool nearHeavy = m2 - g < std::abs(g - m1);        // gluino belongs to the heavier stop
   switch (h) {
   case h3: return g > m2;
   case h32q2g: return m2 >= q && m2 > g;
   case h3q22g: return m2 < q && m2 > g;
   case h4: return m1 < q && g <= m1;
   case h5: return split && nearLight && m2 < q && g <= m1;
   case h5g1: return split && nearLight && m2 < q && g > m1;
   case h6: return split && nearHeavy && 1.3*m2 < q && g <= m2;
   case h6g2: return split && nearHeavy && 1.3*m2 < q && g > m2;
   case h6b: return split && nearHeavy && m2 >= q && g <= m2;
   case h6b2qg2: return split && nearHeavy && m2 >= q && g > m2;
   case h6bq22g: return split && nearHeavy && m2 < q && g <= m2;
   case h6bq2g2: return split && nearHeavy && m2 < q && g > m2;
   case h9: return m2 >= q && m2 - m1 < m1 - g;
   case h9q2: return m2 < q && g < m1;
   }
   return false;
}

struct Candidate { int h; double measure, absdiff, reldiff, unc2, noise; }; ///< noise: relative rounding error of the masses

/// square root of the smallest eigenvalue
inline double lightest(const Eigen::Matrix2d& x)
{
   const double T = x(0,0) + x(1,1), D = x(0,0) - x(1,1), o = 0.5*(x(0,1) + x(1,0));
   const double R = std::sqrt(D*D + 4*o*o), big = 0.5*(T + R);
   return std::sqrt(T > 0 ? (x(0,0)*x(1,1) - o*o)/big : 0.5*(T - R));
}

inline Eigen::Matrix2d tree(const Parameters& p)
{
   const double tb = p.vu/p.vd, s2 = 2*p.vu*p.vd/(p.vu*p.vu + p.vd*p.vd), z = p.MZ*p.MZ, a = p.MA*p.MA;
   Eigen::Matrix2d t;
   t << 0.5*s2*(z/tb + a*tb), -0.5*s2*(z + a), -0.5*s2*(z + a), 0.5*s2*(z*tb + a/tb);
   return t;
}

inline Eigen::Matrix2d mat(const vref::Sym& s) { Eigen::Matrix2d m; m << (double)s.a11, (double)s.a12, (double)s.a12, (double)s.a22; return m; }

/// expansion variables of which the highest power is dropped for the uncertainty estimate
inline std::vector<int> variables(int h)
{
   using namespace vref::hierarchies::ExpansionDepth;
   switch (h) {
   case h3: case h32q2g: case h3q22g: return {Dmglst1, Dmsqst1, Dmst12};
   case h4: return {At, lmMsusy, Msq, Msusy};
   case h5: case h5g1: return {Dmglst1, Msq};
   case h6: case h6g2: return {Dmglst2, Msq};
   case h9: case h9q2: return {Dmsqst1, Dmst12, Mgl};
   default: return {Dmglst2, Dmsqst2};
   }
}

/// expansion uncertainty
inline double uncertainty(const vref::In& x, int h, int mdr, const Eigen::Matrix2d& m, int l1, int l2, int l3)
{
   const auto mh = [&](int dropped) {
      vref::ExpansionFlags_t f; f.fill(1); if (dropped >= 0) f[dropped] = 0;
      return lightest(m + mat(vref::calculateHierarchy(x, h, mdr, l1, l2, l3, f))); };
   const double full = mh(-1);
   double s = 0;
   for (int v : variables(h)) s += std::pow(full - mh(v), 2);
   return std::sqrt(s);
}

/// all candidates with their error measures; p must be a completed point
inline std::vector<Candidate> candidates(const Parameters& p, bool ab)
{
   HierarchyCalculator hc(p, false);
   const Masses m = masses(p, ab);
   const vref::In x = refin::in(p, ab);
   vref::ExpansionFlags_t f; f.fill(1); f[vref::hierarchies::ExpansionDepth::threeLoop] = f[vref::hierarchies::ExpansionDepth::Mst] = 0;
   std::vector<Candidate> r;
   for (int h = 0; h < NH; ++h) {
      if (!suitable(h, m)) continue;
      HierarchyObject ho(ab); ho.setMDRFlag(0); ho.setSuitableHierarchy(h);
      const Eigen::Matrix2d one = tree(p) + mat(vref::oneLoopAt(x, x.M1, x.M2));
      const double exact = lightest(one + hc.getMt42L(ho, 0, 0));
      // the three-loop truncation is applied to the expansion
      const double e = lightest(one + mat(vref::calculateHierarchy(x, h, 0, 0, 1, 0, f)));
      const double u = uncertainty(x, h, 0, one, 0, 1, 0);
      r.push_back({h, std::hypot((exact - e)/exact, u/e), std::abs(exact - e), std::abs(exact - e)/exact, u, 1e-13*(one(0,0) + one(1,1))/std::pow(std::min(exact, e), 2)});
   }
   return r;
}

/// index of the best candidate
inline int best(const std::vector<Candidate>& c)
{
   int b = -1;
   for (int i = 0; i < (int)c.size(); ++i) if (b < 0 || c[i].measure < c[b].measure || (std::isnan(c[b].measure) && !std::isnan(c[i].measure))) b = i;
   return b;
}
} // namespace sel
