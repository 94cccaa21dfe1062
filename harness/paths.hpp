// One-parameter families of spectra that approach the expansion point of a hierarchy.
#pragma once
#include "sel.hpp"
#include "vf.hpp"
#include "himalaya/Himalaya_interface.hpp"

namespace paths {
using himalaya::Parameters;
using vf::Gen;

/// eps -> 0: the expansion point
struct Path {
   int h; bool ab; double M, xt, a, b, c, scale, mu, tb, mf, s; 
   /// masses of the lighter and heavier squark, gluino and light squarks
   void masses(double e, double& m1, double& m2, double& mg, double& mq) const
   {
      using namespace sel;
      switch (h) {
      case h3: case h32q2g: case h3q22g: m1 = M; m2 = M*(1 + a*e); mg = M*(1 + b*e); mq = M*(1 + c*e); break;
      case h4: m1 = M; m2 = M*(1 + a*e); mg = M*(1 + b*e); mq = M/e; break;
      case h5: case h5g1: m1 = M*e; m2 = M; mg = M*e*(1 + b*e); mq = M/e; break;
      case h6: case h6g2: m1 = M*e; m2 = M; mg = M*(1 + b*e); mq = M/e; break;
      case h9: case h9q2: m1 = M; m2 = M*(1 + a*e); mg = M*e; mq = M*(1 + c*e); break;
      default: m1 = M*e; m2 = M; mg = M*(1 + b*e); mq = M*(1 + c*e);
      }
   }
   /// completed point; false if the mixing is not possible
   bool point(double e, Parameters& p) const
   {
      double m1, m2, mg, mq; masses(e, m1, m2, mg, mq);
      p = Parameters();
      const double v = 246, X = xt*M*(sel::h3 == h || sel::h32q2g == h || sel::h3q22g == h || sel::h9 == h || sel::h9q2 == h || sel::h4 == h ? e : 1);
      p.vu = v*tb/std::sqrt(1 + tb*tb); p.vd = v/std::sqrt(1 + tb*tb);
      p.scale = scale*M; p.mu = mu*M*(h == sel::h4 ? ab ? e/tb : e : 1); // h4 neglects mu
      p.g1 = 0.46; p.g2 = 0.65; p.g3 = 1.05; p.M1 = p.M2 = M; p.MA = M; p.MG = mg;
      const double s2 = 2*mf*X/(m1*m1 - m2*m2);
      if (!(std::abs(s2) <= 1)) return false;
      const double th = 0.5*std::asin(s2);
      p.Yu(2,2) = 154*std::sqrt(2.)/p.vu; p.Yd(2,2) = p.Ye(2,2) = 0.05; p.Mt = 154; p.Mb = 2.5;
      p.Mtau = 1.7; p.MStau << M, M; p.theta_tau = p.s2tau = 0; p.ml2 = p.me2 = M*M*Eigen::Matrix3d::Identity();
      (ab ? p.Mb : p.Mt) = mf;
      p.MSt << M, M; p.MSb << mq, mq; p.theta_t = p.s2t = p.theta_b = p.s2b = 0;
      (ab ? p.MSb : p.MSt) << m1, m2; (ab ? p.theta_b : p.theta_t) = th; (ab ? p.s2b : p.s2t) = s2;
      if (ab) p.Ad(2,2) = X + p.mu*tb; else p.Au(2,2) = X + p.mu/tb;
      for (auto* m : {&p.mq2, &p.mu2, &p.md2}) *m = mq*mq*Eigen::Matrix3d::Identity();
      try { p.validate(false); } catch (const std::exception&) { return false; }
      return true;
   }
};
} // namespace paths
