// C18: dilogarithm and Clausen function against 113-bit references.
#include "vf.hpp"
#include "qref.hpp"
#include "himalaya/misc/Li2.hpp"
#include "himalaya/mh2l/Li2f.hpp"

using namespace vf;
using cd = std::complex<double>;

static Info info(
   "a case is one argument (real, complex or angle), drawn near the special points 0, 1, -1, 2, 1/2, the unit circle, "
   "the internal region boundaries and the branch cut at log-uniform distances down to 1e-150 (complex) or 1e-17 (real), or log-uniformly over 1e-300..1e300 (real), 1e-150..1e150 (complex); "
   "non-trivial: the argument is not exactly one of 0, 1, -1 and the reference value is finite",
   {"reference: Bernoulli series in 113-bit arithmetic, itself checked against the defining power series in sub-property 'ref'",
    "tolerances: 1e-14 relative to max(|Li2|, log^2 terms) (implementation error measured < 2e-15)"});

static double special_real(Gen& g)
{
   switch (g.below(6)) {
   case 0: return g.uni(-4, 4);
   case 1: return g.sign()*g.logu(1e-300, 1e300);
   case 2: return g.sign()*g.logu(1e-3, 1e3);
   case 3: return g.pick({0, 1, -1, 2, 0.5, -2, 12.595170369845016}) + g.sign()*g.logu(1e-17, 1);
   case 4: { double x = g.pick({1, -1, 2, 0.5, -0.5, 3, 0.25}); const int n = g.below(40); const double to = g.coin() ? 1e9 : -1e9; for (int i = 0; i < n; ++i) x = std::nextafter(x, to); return x; }
   default: return g.pick({0, 1, -1, 2, 0.5, -0.5});
   }
}

static double tolr(double x, double ref)
{
   const double l = std::abs(x) > 0 ? std::log(std::abs(x)) : 0;
   const double l1 = x != 1 ? std::log(std::abs(1 - x)) : 0;
   double scale = std::abs(ref);
   if (x > 1) scale = std::max(scale, 3.3 + 0.5*l*l);
   if (x < -1) scale = std::max(scale, 1.7 + 0.5*l1*l1 );
   return 6e-15*scale + 1e-320;
}

VF_SUB("real", 1200000, 8000000)
{
   const double x = special_real(g);
   g.note("x", x);
   if (x != 0 && std::abs(x) != 1) g.nontrivial();
   g.label(x < -1 ? "x<-1" : x < 0 ? "-1..0" : x < 0.5 ? "0..1/2" : x < 1 ? "1/2..1" : x < 2 ? "1..2" : ">=2");
   const double ref = (double)qref::li2r(x);
   const double tol = tolr(x, ref);
   close(g, "dilog(x)", himalaya::dilog(x), ref, tol);
   close(g, "li2(x) [two-loop routines]", himalaya::li2(x), ref, tol + 1e-15);
}

static cd special_complex(Gen& g)
{
   const double pi = 3.14159265358979324;
   switch (g.below(8)) {
   case 0: return {g.uni(-3, 3), g.uni(-3, 3)};
   case 1: return std::polar(g.logu(1e-150, 1e150), g.uni(-pi, pi));
   case 2: return std::polar(g.logu(1e-10, 1e6), g.uni(-pi, pi));
   case 3: return std::polar(1 + g.sign()*g.logu(1e-17, 0.5), g.uni(-pi, pi));            // unit circle
   case 4: return cd(g.pick({0, 1, -1, 2, 0.5}), 0) + std::polar(g.logu(1e-17, 1), g.uni(-pi, pi));
   case 5: return {std::max(-1e150, std::min(1e150, special_real(g))), g.sign()*g.logu(1e-150, 1e-3)};                        // next to the real axis
   case 6: return std::polar(1., g.sign()*pi/3) + std::polar(g.logu(1e-16, 1), g.uni(-pi, pi)); // fixed points
   default: { // the region boundaries Re z = 1/2, |z| = 1, |z|^2 = 2 Re z
      const double d = g.sign()*g.logu(1e-17, 1e-2);
      if (g.coin()) return {0.5 + d, g.uni(-2, 2)};
      return cd(1, 0) + std::polar(1 + d, g.uni(-pi, pi));
   }
   }
}

VF_SUB("complex", 900000, 8000000)
{
   const cd z = special_complex(g);
   g.note("z", z);
   if (std::abs(z) != 0) g.nontrivial();
   const auto q = qref::li2({z.real(), z.imag()});
   const cd ref((double)q.re, (double)q.im);
   const double l = std::log(std::max(1., std::abs(z)));
   const double scale = std::max(std::abs(ref), std::abs(z) > 1 ? 1.7 + 0.5*l*l + 3.2*l : 0.);
   const double tol = 8e-15*scale + 1e-320;
   g.label(z.imag() == 0 ? "real axis" : std::abs(z) > 1 ? (z.real() > 0.5 ? ">1,right" : ">1,left") : (z.real() > 0.5 ? "<1,right" : "<1,left"));
   const cd d = himalaya::dilog(z);
   close(g, "|dilog(z) - ref|", std::abs(d - ref), 0, tol);
   const cd f = himalaya::li2(z);
   // the Fortran version evaluates log(1-z) directly: absolute accuracy at small z
   close(g, "|li2(z) - ref| [two-loop routines]", std::abs(f - ref), 0, tol + 4e-15);
   // reflection z -> conj(z)
   if (z.imag() != 0) {
      const cd c = himalaya::dilog(std::conj(z));
      close(g, "|dilog(conj z) - conj dilog(z)|", std::abs(c - std::conj(d)), 0, tol);
   }
}

VF_SUB("cut", 20000, 400000)
{
   // on the cut the value is the limit from below: Im = -pi log x
   const double x = 1 + g.logu(1e-15, 1e150);
   g.note("x", x); g.nontrivial();
   const double pi = 3.14159265358979324;
   const double l = std::log(x), tol = 4e-15*(3.3 + 0.5*l*l + pi*l);
   for (double iz : {0., -0.}) {
      const cd d = himalaya::dilog(cd(x, iz)), f = himalaya::li2(cd(x, iz));
      close(g, "Im dilog on the cut", d.imag(), -pi*l, 4e-15*(pi*l));
      close(g, "Re dilog on the cut", d.real(), (double)qref::li2r(x), tol);
      close(g, "Im li2 on the cut", f.imag(), -pi*l, 4e-15*(pi*l));
      close(g, "Re li2 on the cut", f.real(), (double)qref::li2r(x), tol);
   }
}

VF_SUB("clausen", 800000, 6000000)
{
   const double pi = 3.14159265358979324;
   double x;
   switch (g.below(5)) {
   case 0: x = g.uni(0, 2*pi); break;
   case 1: x = g.pick({0, 0.5, 1, 1.5, 2, 3, 4, -1, -2, -0.5})*pi + g.sign()*g.logu(1e-17, 1); break;
   case 2: x = g.sign()*g.logu(1e-300, 1e3); break;
   case 3: x = g.uni(-40, 40); break;
   default: { x = g.pick({0.5, 1, 2, 1./3, 4})*pi; const int n = g.below(20); const double to = g.coin() ? 1e9 : -1e9; for (int i = 0; i < n; ++i) x = std::nextafter(x, to); }
   }
   g.note("x", x);
   if (x != 0) g.nontrivial();
   const qref::Q r = qref::cl2(x);
   // distance to the next multiple of 2 pi: Cl2 has an infinite slope there
   const double dist = std::max(1e-320, std::abs((double)remainderq(x, 2*qref::pi())));
   const double slope = 1 + std::abs(std::log(dist));
   double tol;
   if (std::abs(x) < 2*pi) {
      // within one period: relative accuracy near 0 and 2 pi, accuracy ~ eps*pi elsewhere
      tol = 6e-15*std::min(std::abs((double)r), 1.1) + 2e-15*std::abs(x > 1 || x < -1 ? 1. : 0.)*slope*0.2;
   } else {
      tol = 2e-15*(1 + std::abs(x))*slope; // argument reduction with a rounded period
   }
   g.label(std::abs(x) < 1.6 ? "|x|<pi/2" : std::abs(x) < 3.15 ? "pi/2..pi" : std::abs(x) < 6.29 ? "pi..2pi" : ">2pi");
   close(g, "Cl2(x)", himalaya::clausen_2(x), (double)r, tol + 1e-320);
   close(g, "Cl2(-x) = -Cl2(x)", himalaya::clausen_2(-x), -himalaya::clausen_2(x), 0);
}

VF_SUB("ref", 2000, 20000)
{
   // the reference itself against the defining series, |z| <= 0.93
   const double pi = 3.14159265358979324;
   const cd z = std::polar(g.uni(0, 0.93), g.uni(-pi, pi));
   g.note("z", z); g.nontrivial();
   qref::C s{0, 0}, p{1, 0}; const qref::C q{z.real(), z.imag()};
   for (int k = 1; k < 1100; ++k) { p = p*q; s = s + (qref::Q(1)/(qref::Q(k)*k))*p; }
   const auto r = qref::li2(q);
   close(g, "reference vs power series", (double)qref::abs(r - s), 0, 1e-28);
}
