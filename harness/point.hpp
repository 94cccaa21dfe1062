// Generation of MSSM parameter points, shared by all checks.
#pragma once
#include "vf.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include <cmath>
#include <string>

namespace pt {
using himalaya::Parameters;
using vf::Gen;

struct Opt {
   double msmin = 300, msmax = 2e4;
   double tbmin = 1.5, tbmax = 60;
   double xtmax = 3;          ///< |Xt|/MS
   int pattern = -1;          ///< -1: any
   bool yuk = true;           ///< first two generations' Yukawas, non-zero
   double gmin = 0.05, gmax = 0.8;
   bool scalefree = true;     ///< renormalisation scale different from MS
   double scalemin = 0.4, scalemax = 2.5;
};

enum Pattern { Degenerate, Close, Generic, Hierarchical, LightGluino, HeavyGluino, Split, HeavySquarks, NPattern };
inline const char* name(int i) { static const char* n[] = {"degenerate", "nearly degenerate", "generic", "hierarchical", "light gluino", "heavy gluino", "split stops", "heavy squarks"}; return n[i]; }

inline Eigen::Matrix3d diag(double a, double b, double c) { Eigen::Matrix3d m; m << a, 0, 0, 0, b, 0, 0, 0, c; return m; }

/// a factor around one
inline double fac(Gen& g, int pat, double lo = 0.4, double hi = 2.5)
{
   switch (pat) {
   case Degenerate: return 1;
   case Close: return 1 + g.sign()*g.logu(1e-9, 0.1);
   case Hierarchical: return g.logu(0.1, 10);
   default: return g.uni(lo, hi);
   }
}

struct Point { Parameters p; double MS, tb, xt; int pattern; };

inline Point make(Gen& g, const Opt& o = Opt())
{
   Point r; Parameters& p = r.p;
   const int pat = o.pattern >= 0 ? o.pattern : g.below(NPattern);
   r.pattern = pat;
   const double MS = r.MS = g.coin() ? g.logu(o.msmin, o.msmax) : std::min(std::max(2000., o.msmin), o.msmax);
   const double tb = r.tb = g.coin(0.7) ? g.logu(o.tbmin, o.tbmax) : std::min(std::max(10., o.tbmin), o.tbmax);
   const double v = g.coin(0.3) ? g.uni(240, 250) : 246;
   const double beta = std::atan(tb);
   p.vu = v*std::sin(beta); p.vd = v*std::cos(beta);
   const bool def = g.coin(0.5);
   p.g1 = def ? 0.46 : g.uni(o.gmin, o.gmax); p.g2 = def ? 0.65 : g.uni(o.gmin, o.gmax); p.g3 = def ? 1.05 : g.uni(0.7, 1.3);
   const auto sq = [] (double x) { return x*x; };
   double fq = fac(g, pat), fu = fac(g, pat), fd = fac(g, pat), fg = fac(g, pat), fs = fac(g, pat);
   if (pat == LightGluino) fg *= g.uni(0.15, 0.5);
   if (pat == HeavyGluino) { fg *= g.uni(2, 4); fs *= g.uni(1, 3); }
   if (pat == Split) (g.coin() ? fq : fu) *= g.uni(1.5, 4);
   if (pat == HeavySquarks) fs *= g.uni(2, 10);
   const auto fl = [&] { return pat == Degenerate ? 1. : fs*(pat == Close ? 1 + g.sign()*g.logu(1e-9, 0.05) : g.uni(0.8, 1.25)); };
   const bool degs = g.coin(0.5);
   const auto f2 = [&] { return degs ? fs : fl(); };
   p.mq2 = diag(sq(f2()*MS), sq(f2()*MS), sq(fq*MS));
   p.mu2 = diag(sq(f2()*MS), sq(f2()*MS), sq(fu*MS));
   p.md2 = diag(sq(f2()*MS), sq(f2()*MS), sq(fd*MS));
   p.ml2 = diag(sq(fl()*MS), sq(fl()*MS), sq(fac(g, pat)*MS));
   p.me2 = diag(sq(fl()*MS), sq(fl()*MS), sq(fac(g, pat)*MS));
   p.MG = fg*MS;
   p.M1 = g.sign()*fac(g, pat)*MS; p.M2 = g.sign()*fac(g, pat)*MS;
   p.MA = fac(g, pat)*MS;
   p.mu = g.sign()*fac(g, pat)*MS;
   r.xt = g.coin(0.85) ? g.uni(-o.xtmax, o.xtmax) : 0;
   const double mst = std::sqrt(fq*fu)*MS;
   p.Au(2,2) = r.xt*mst + p.mu/tb;
   p.Ad(2,2) = g.coin() ? p.mu*tb + g.uni(-2, 2)*MS : g.uni(-2, 2)*MS;
   p.Ae(2,2) = g.coin() ? p.mu*tb + g.uni(-2, 2)*MS : g.uni(-2, 2)*MS;
   const double mt = g.coin() ? g.uni(120, 175) : 154, mb = g.uni(1, 4), mtau = g.uni(1, 2);
   p.Yu(2,2) = std::sqrt(2.)*mt/p.vu; p.Yd(2,2) = std::sqrt(2.)*mb/p.vd; p.Ye(2,2) = std::sqrt(2.)*mtau/p.vd;
   if (o.yuk && g.coin(0.3)) {
      p.Yu(0,0) = 1e-5; p.Yu(1,1) = 4e-3*g.uni(0.5, 1.5); p.Yd(0,0) = 2e-4; p.Yd(1,1) = 6e-3; p.Ye(0,0) = 3e-5; p.Ye(1,1) = 4e-3;
      p.Au(0,0) = g.uni(-1, 1)*MS; p.Au(1,1) = g.uni(-1, 1)*MS; p.Ad(1,1) = g.uni(-1, 1)*MS; p.Ae(1,1) = g.uni(-1, 1)*MS;
   }
   p.scale = o.scalefree && g.coin(0.6) ? MS*g.logu(o.scalemin, o.scalemax) : MS;
   return r;
}

inline void note(Gen& g, const Parameters& p, const std::string& pre = "")
{
   const auto m = [&](const char* n, const Eigen::Matrix3d& x) {
      std::string s; bool dg = true;
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j && !(x(i,j) == 0)) dg = false;
      if (dg) s = "diag " + vf::cat(x(0,0), " ", x(1,1), " ", x(2,2));
      else for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s += vf::str(x(i,j)) + " ";
      g.note(pre + n, s); };
   const auto d = [&](const char* n, double x) { g.note(pre + n, x); };
   d("scale", p.scale); d("mu", p.mu); d("g1", p.g1); d("g2", p.g2); d("g3", p.g3); d("vd", p.vd); d("vu", p.vu);
   m("mq2", p.mq2); m("md2", p.md2); m("mu2", p.mu2); m("ml2", p.ml2); m("me2", p.me2); m("Au", p.Au); m("Ad", p.Ad); m("Ae", p.Ae);
   m("Yu", p.Yu); m("Yd", p.Yd); m("Ye", p.Ye); d("M1", p.M1); d("M2", p.M2); d("MG", p.MG); d("MA", p.MA);
   d("MW", p.MW); d("MZ", p.MZ); d("Mt", p.Mt); d("Mb", p.Mb); d("Mtau", p.Mtau);
   g.note(pre + "MSt", vf::cat(p.MSt(0), " ", p.MSt(1))); g.note(pre + "MSb", vf::cat(p.MSb(0), " ", p.MSb(1))); g.note(pre + "MStau", vf::cat(p.MStau(0), " ", p.MStau(1)));
   d("s2t", p.s2t); d("s2b", p.s2b); d("s2tau", p.s2tau); d("theta_t", p.theta_t); d("theta_b", p.theta_b); d("theta_tau", p.theta_tau);
}
/// a wide range of spectra for the fixed-order calculation: small, vanishing and coinciding parameters
inline Parameters makeWide(Gen& g, bool gaugeless)
{
   Opt o; o.msmin = 50; o.tbmin = 0.6;
   Parameters p = make(g, o).p;
   const auto special = [&](double& x) { switch (g.below(12)) { case 0: x = 0; break; case 1: x *= 1e-8; break; case 2: x *= 1e-3; break; default:; } };
   special(p.M1); special(p.M2); special(p.mu); special(p.MA);
   if (g.coin(0.1)) p.M1 = -p.M2; if (g.coin(0.1)) p.M1 = p.M2; if (g.coin(0.1)) p.mu = p.M2; if (g.coin(0.05)) p.mu = -p.M2;
   if (g.coin(0.1)) p.MA = 91.19; if (g.coin(0.05)) p.vd = p.vu;
   if (gaugeless) p.g1 = p.g2 = 0; else { if (g.coin(0.1)) p.g1 = g.logu(1e-8, 1); if (g.coin(0.1)) p.g2 = g.logu(1e-8, 1); }
   if (g.coin(0.1)) p.Yu(2,2) = -p.Yu(2,2);
   if (g.coin(0.1)) p.Yd(2,2) = 0;
   if (g.coin(0.1)) for (auto* m : {&p.mq2, &p.mu2, &p.md2, &p.ml2, &p.me2}) { (*m)(0,1) = (*m)(1,0) = g.uni(-1, 1)*1e3; }
   // nearly degenerate pairs
   if (g.coin(0.2)) p.mu2(2,2) = p.mq2(2,2)*(1 + g.sign()*g.logu(1e-15, 1e-3));
   if (g.coin(0.1)) p.md2(2,2) = p.mq2(2,2);
   return p;
}
} // namespace pt
