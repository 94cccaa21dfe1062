// Comparison of library values with reference values of (almost) exact
// arithmetic: rounding errors fluctuate between neighbouring inputs, an error
// of an expression does not.
#pragma once
#include "point.hpp"
#include "refin.hpp"

namespace judge {
using himalaya::Parameters;
using vf::Gen;
using refin::R;

inline Parameters near(Gen& g, Parameters p)
{
   const auto j = [&](double& x) { x *= 1 + 1e-10*g.uni(-1, 1); };
   for (double* x : {&p.scale, &p.mu, &p.g3, &p.vd, &p.vu, &p.MG, &p.Mt, &p.Mb, &p.theta_t, &p.theta_b, &p.MSt(0), &p.MSt(1), &p.MSb(0), &p.MSb(1), &p.Au(2,2), &p.Ad(2,2), &p.mq2(0,0)}) j(*x);
   p.s2t = std::sin(2*p.theta_t); p.s2b = std::sin(2*p.theta_b);
   return p;
}

struct Vals { std::vector<double> lib; std::vector<R> ref; std::vector<double> floor; };

/// eval(point, values); returns true if at least one value is significant
template <class F> bool compare(Gen& g, const std::vector<std::string>& names, F&& eval, const Parameters& p, int nn = 7)
{
   Vals v0; eval(p, v0);
   const int n = names.size(); v0.floor.resize(n, 0);
   std::vector<double> noise(n, 0);
   for (int k = 0; k < nn; ++k) {
      Vals v; eval(near(g, p), v);
      for (int i = 0; i < n; ++i) { const double d = std::abs((double)((v.lib[i] - v.ref[i]) - (v0.lib[i] - v0.ref[i]))); if (d > noise[i] || std::isnan(d)) noise[i] = d; }
   }
   bool nt = false;
   for (int i = 0; i < n; ++i) {
      const bool fl = std::isfinite(v0.lib[i]), fr = std::isfinite((double)v0.ref[i]);
      if (!fr && !fl) continue;
      if (std::isnan(noise[i]) || std::isinf(noise[i])) continue;
      const double d = std::abs((double)(v0.lib[i] - v0.ref[i])), tol = 300*noise[i] + 2e-12*std::abs((double)v0.ref[i]) + v0.floor[i] + 1e-250;
      if (!(d <= tol)) g.fail(vf::cat(names[i], " = ", v0.lib[i], ", expected ", (double)v0.ref[i], " (tolerance ", tol, ")"));
      if (fl && v0.lib[i] != 0 && tol < 1e-3*std::abs(v0.lib[i])) nt = true;
   }
   return nt;
}
} // namespace judge
