// C17: one-loop functions against their defining integrals in 113-bit precision.
#include "vf.hpp"
#include "pvref.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include <algorithm>

using namespace vf;
using namespace himalaya::mh2_fo;
using qref::Q;

static Info info(
   "a case is one argument tuple (p^2, m1^2, m2^2, Q^2): masses and momentum log-uniform over up to 40 decades relative to each other, exactly zero, exactly or nearly (1e-17..1) equal, "
   "and momenta at zero, at log-uniform distances from the normal threshold (m1+m2)^2, the pseudo-threshold (m1-m2)^2, the single-mass points m1^2, m2^2 and from the internal switch-over points of the code; "
   "non-trivial: at least one mass is non-zero and not all arguments are equal",
   {"reference: closed form of the defining integral in 113-bit arithmetic, which is itself compared with numerical quadrature of the Feynman-parameter integral in sub-property 'ref'",
    "all squared masses vanishing or above 1e-13 (a0 and d1_b0 define squared masses below 1e-15 GeV^2 as zero)",
    "B0 is defined as zero if momentum and both masses are below 1e-15 Q^2 (documented infrared convention); these points are checked against that convention",
    "tolerance 4e-7 next to the threshold, where the implementation gives the masses a relative imaginary part of 1e-15, 5e-10 elsewhere, relative to 1 + |logarithms|"});

struct Arg { double p2, a, b, q2; };

static double near1(Gen& g) { return 1 + g.sign()*g.logu(1e-16, 0.5); }

static Arg arg(Gen& g)
{
   Arg r;
   const double scale = g.coin(0.3) ? g.logu(1e-6, 1e12) : 1;
   r.b = scale;
   switch (g.below(6)) {
   case 0: r.a = r.b*g.uni(0, 1); break;
   case 1: r.a = r.b*g.logu(1e-20, 1); break;
   case 2: r.a = 0; break;
   case 3: r.a = r.b*near1(g); break;
   case 4: r.a = r.b*g.logu(1e-34, 1e-12); break;
   default: r.a = r.b;
   }
   if (r.a > 0 && r.a < 1e-13) r.a = r.b*g.uni(0.1, 1);
   const double sa = std::sqrt(r.a), sb = std::sqrt(r.b);
   const double th = (sa + sb)*(sa + sb), ps = (sa - sb)*(sa - sb);
   switch (g.below(10)) {
   case 0: r.p2 = r.b*g.uni(0, 6); g.label("p2 generic"); break;
   case 1: r.p2 = r.b*g.logu(1e-20, 1e20); g.label("p2 any size"); break;
   case 2: r.p2 = 0; g.label("p2=0"); break;
   case 3: r.p2 = th*near1(g); g.label("near threshold"); break;
   case 4: r.p2 = ps*near1(g); g.label("near pseudo-threshold"); break;
   case 5: r.p2 = r.a*near1(g); g.label("p2 ~ m1^2"); break;
   case 6: r.p2 = r.b*near1(g); g.label("p2 ~ m2^2"); break;
   case 7: r.p2 = th; g.label("at threshold"); break;
   case 8: r.p2 = r.a*g.pick({1e-11, 1e-3, 1e2, 1e15, 1e3, 1e-6})*near1(g); g.label("switch-over"); break;
   default: r.p2 = r.b*g.logu(1e-12, 1); g.label("p2 small");
   }
   r.q2 = scale*(g.coin() ? g.logu(1e-6, 1e6) : 1);
   if (g.coin()) std::swap(r.a, r.b);
   g.note("p2", r.p2); g.note("m12", r.a); g.note("m22", r.b); g.note("q2", r.q2);
   if ((r.a > 0 || r.b > 0) && !(r.a == r.b && r.b == r.p2)) g.nontrivial();
   return r;
}

static bool ir(const Arg& r, double f = 1) { return r.p2 < f*1e-15*r.q2 && r.a < f*1e-15*r.q2 && r.b < f*1e-15*r.q2; }

static double logs(const Arg& r)
{
   const double m = std::max(r.a, r.b);
   double s = 1;
   if (m > 0) s += std::abs(std::log(m/r.q2));
   if (r.p2 > 0) s += std::abs(std::log(std::max(r.p2, m)/r.q2));
   return s;
}

static double tol(const Arg& r)
{
   // distance from threshold, relative
   const Q s = Q(r.p2) - r.a - r.b, lam = s*s - 4*Q(r.a)*r.b;
   const double m = std::max(r.a, r.b);
   const double d = (double)(fabsq(lam)/(Q(r.p2 + m)*(r.p2 + m)));
   const double edge = 1e-14/std::sqrt(d + 1e-14);
   return (5e-10 + edge*4)*logs(r);
}

VF_SUB("b0", 1200000, 12000000)
{
   const Arg r = arg(g);
   if (ir(r, 10)) { g.label("IR"); if (ir(r)) g.require(b0(r.p2, r.a, r.b, r.q2) == 0, "infrared convention b0=0"); return; }
   const double ref = (double)pvref::b0(r.p2, r.a, r.b, r.q2), v = b0(r.p2, r.a, r.b, r.q2);
   close(g, "B0", v, ref, tol(r));
}

VF_SUB("b0 symmetry and scale", 300000, 3000000)
{
   Arg r = arg(g);
   if (ir(r, 10)) g.discard();
   const double v = b0(r.p2, r.a, r.b, r.q2);
   close(g, "B0(p,m2,m1)", b0(r.p2, r.b, r.a, r.q2), v, 1e-13*logs(r));
   // common rescaling by a power of four is exact up to rounding of the internal logarithms
   const double k = std::pow(4., g.range(-10, 10));
   close(g, "B0 rescaled", b0(k*r.p2, k*r.a, k*r.b, k*r.q2), v, 1e-12*logs(r));
   // scale dependence: d B0 = log(q2'/q2)
   const double f = g.logu(1e-3, 1e3);
   Arg s = r; s.q2 = f*r.q2;
   if (!ir(s, 10)) close(g, "B0 scale dependence", b0(s.p2, s.a, s.b, s.q2) - v, std::log(f), 1e-12*(logs(r) + logs(s)));
   // signs of squared arguments are ignored
   close(g, "B0(-p2,-m12,m22)", b0(-r.p2, -r.a, r.b, r.q2), v, 1e-13*logs(r));
}

VF_SUB("b0xx", 500000, 4000000)
{
   Arg r;
   r.a = r.b = g.logu(1e-10, 1e14);
   switch (g.below(5)) {
   case 0: r.p2 = r.a*g.uni(0, 10); break;
   case 1: r.p2 = r.a*g.logu(1e-25, 1e25); break;
   case 2: r.p2 = r.a*g.pick({4, 1e-3, 1e2, 1e15, 1})*near1(g); break;
   case 3: r.p2 = 0; break;
   default: r.p2 = 4*r.a; break;
   }
   r.q2 = r.a*g.logu(1e-8, 1e8);
   g.note("p2", r.p2); g.note("m2", r.a); g.note("q2", r.q2);
   g.nontrivial();
   const double ref = (double)pvref::b0(r.p2, r.a, r.a, r.q2);
   close(g, "B0(p,m,m) [b0xx]", b0xx(r.p2, r.a, r.q2), ref, tol(r));
   close(g, "B0(p,m,m) [b0]", b0(r.p2, r.a, r.a, r.q2), ref, tol(r));
   // massless
   const double p = g.logu(1e-8, 1e12);
   if (p > 1e-14*r.q2) close(g, "B0(p,0,0)", b0xx(p, 0, r.q2), 2 - std::log(p/r.q2), 1e-13*(2 + std::abs(std::log(p/r.q2))));
}

VF_SUB("a0", 300000, 3000000)
{
   const double q2 = g.logu(1e-6, 1e12);
   const double m2 = g.coin(0.05) ? 0 : q2*g.logu(1e-20, 1e20);
   g.note("m2", m2); g.note("q2", q2);
   if (m2 > 0) g.nontrivial();
   if (m2 == 0) { g.require(a0(0, q2) == 0, "a0(0)=0"); return; }
   if (m2 < 1e-13) { g.require(std::abs(a0(m2, q2)) <= 1e-13*(1 + std::abs(std::log(m2/q2))), "a0 of a tiny mass"); return; }
   close(g, "A0", a0(m2, q2), (double)(Q(m2)*(1 - logq(Q(m2)/q2))), 1e-14*m2*(1 + std::abs(std::log(m2/q2))));
   // A0 = m^2 (1 + B0(0,m,m))
   if (m2 > 1e-14*q2) close(g, "A0 = m2 (1 + B0(0,m,m))", a0(m2, q2), m2*(1 + b0xx(0, m2, q2)), 1e-14*m2*(2 + std::abs(std::log(m2/q2))));
}

VF_SUB("d1_b0", 500000, 5000000)
{
   double b = g.logu(1e-6, 1e12), a;
   switch (g.below(5)) {
   case 0: a = b*g.uni(0, 1); break;
   case 1: a = b*g.logu(1e-25, 1); break;
   case 2: a = b*near1(g); break;
   case 3: a = b*(1 + g.sign()*5e-2*near1(g)); break;
   default: a = g.coin() ? 0 : b;
   }
   if (a > 0 && a < 1e-13) a = 0.5*b;
   if (g.coin()) std::swap(a, b);
   g.note("m12", a); g.note("m22", b);
   if (a != b) g.nontrivial();
   const double ref = (double)pvref::d1_b0(a, b);
   close(g, "B0'", d1_b0(a, b), ref, 2e-8*ref);
   const double k = std::pow(4., g.range(-3, 10));
   if (std::min(a, b) == 0 || k*std::min(a, b) > 1e-13) close(g, "B0' rescaled", k*d1_b0(k*a, k*b), ref, 2e-8*ref);
}

// d B0/d p2 by finite difference of b0 itself: ties b0 and d1_b0
VF_SUB("derivative", 200000, 2000000)
{
   const double b = 1, a = g.coin() ? g.uni(0.01, 1) : near1(g), h = 1e-3*std::min(a, b);
   g.note("m12", a); g.nontrivial();
   const double n = (-3*b0(0, a, b, 1) + 4*b0(h, a, b, 1) - b0(2*h, a, b, 1))/(2*h);
   close(g, "dB0/dp2", n, d1_b0(a, b), 2e-5*d1_b0(a, b) + 1e-10/h);
}

VF_SUB("ref", 4000, 40000)
{
   // trapezoidal (double-exponential) quadrature of -int_0^1 log |(x a + (1-x) b - x(1-x) p2)/q2| dx below threshold
   Arg r = arg(g);
   const double th = (std::sqrt(r.a) + std::sqrt(r.b))*(std::sqrt(r.a) + std::sqrt(r.b));
   if (!(r.p2 < 0.95*th) || th == 0 || ir(r, 10)) g.discard();
   if (std::min(r.a, r.b) > 0 && std::min(r.a, r.b) < 1e-8*std::max(r.a, r.b)) g.discard();
   long double sum = 0; const long double hh = 0.02L;
   for (int i = -220; i <= 220; ++i) {
      const long double t = i*hh, e = 1.5707963267948966192L*sinhl(t), w = 1.5707963267948966192L*coshl(t)/(coshl(e)*coshl(e));
      const long double x = 1/(1 + expl(-2*e)), y = 1/(1 + expl(2*e));
      const long double f = (x*r.a + y*r.b - x*y*r.p2)/r.q2;
      if (f > 0) sum += w*logl(f);
   }
   const double num = (double)(-0.5L*sum*hh);
   close(g, "reference vs quadrature", (double)pvref::b0(r.p2, r.a, r.b, r.q2), num, 1e-9*logs(r));
}
