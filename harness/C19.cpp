// C19: threshold loop functions against their definitions in 113-bit precision.
#include "vf.hpp"
#include "tlref.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include <algorithm>

using namespace vf;
using qref::Q;
namespace T = himalaya::mh2_eft::threshold_loop_functions;

static Info info(
   "a case is one argument (pair, triple) of one function: log-uniform over 60 decades, exactly 0 and +-1, at log-uniform distances 1e-16..1e-1 from 0, +-1, from each other and from every internal switch-over point (0.01, 0.02, 0.001, 1e-4, ...); "
   "non-trivial: the argument is in a limit region of the code or within a factor 3 of its border",
   {"reference: closed-form definition in 113-bit arithmetic, next to removable singularities evaluated by Chebyshev interpolation of the definition around the argument (no series of the code is repeated)",
    "admissible arguments: positive ratios of masses for F1..F4, either sign for the others",
    "tolerance: relative 1e-10 (one argument) or 2e-7 (two arguments) plus absolute 3e-9; absolute 2e-7 for f7 and 3e-8 for f5 with two arguments below 3e-4, absolute 4e-6 (F8) and 1.2e-5 (f5) with one argument below 0.0101 and the other within 0.0101 of +-1, where the code truncates its expansions; relative 4e-15 max/|x-y| for arguments larger than 10"});

static const double sw[] = {0.01, 0.02, 0.001, 1e-4, 5e-5, 1e-5, 1e-6};

/// any argument; reg: region
static double arg(Gen& g, bool neg, const char*& reg)
{
   const double s = neg ? g.sign() : 1;
   switch (g.below(10)) {
   case 0: reg = "generic"; return s*g.logu(1e-3, 1e3);
   case 1: reg = "moderate"; return s*g.uni(0.2, 5);
   case 2: reg = "near one"; g.nontrivial(); return s*(1 + g.sign()*g.logu(1e-16, 0.03));
   case 3: reg = "one"; g.nontrivial(); return s;
   case 4: reg = "near one"; g.nontrivial(); return s*(1 + g.sign()*sw[g.below(3)]*(1 + g.sign()*g.logu(1e-12, 1)));
   case 5: reg = "small"; g.nontrivial(); return s*g.logu(1e-9, 2e-2);
   case 6: reg = "small"; g.nontrivial(); return s*sw[g.below(7)]*(1 + g.sign()*g.logu(1e-12, 0.5));
   case 7: reg = "near one"; g.nontrivial(); return s*(1 + g.sign()*g.uni(0, 0.03));
   case 8: reg = "zero"; g.nontrivial(); return 0;
   default: reg = "extreme"; return s*g.logu(1e-30, 1e30);
   }
}

struct F1d { const char* n; double (*f)(double); Q (*r)(Q); bool neg; int par; };
static const F1d f1d[] = {
   {"F1", T::F1, tlref::F1, false, 0}, {"F2", T::F2, tlref::F2, false, 0}, {"F3", T::F3, tlref::F3, false, 0}, {"F4", T::F4, tlref::F4, false, 0},
   {"F5", T::F5, tlref::F5, true, -1}, {"F6", T::F6, tlref::F6, true, 1}, {"F7", T::F7, tlref::F7, true, 1},
   {"f", T::f, tlref::F5, true, -1}, {"g", T::g, tlref::F7, true, 1},
   {"f1", T::f1, tlref::f1, true, 1}, {"f2", T::f2, tlref::f2, true, 1}, {"f3", T::f3, tlref::f3, true, 1}, {"f4", T::f4, tlref::f4, true, 1}};

VF_SUB("one-argument", 800000, 8000000)
{
   const F1d& f = f1d[g.below(13)];
   const char* reg;
   const double x = arg(g, f.neg, reg);
   g.note("function", f.n); g.note("x", x); g.label(reg);
   const double v = f.f(x);
   g.note("result", v);
   const Q r = x == 0 ? f.r(Q(1e-200Q)) : tlref::one(f.r, x);
   const double rd = (double)r;
   close(g, cat(f.n, "(x) against its definition"), v, rd, 1e-10*std::fabs(rd) + (std::fabs(x) > 3 ? 0 : 3e-9));
   if (f.par) close(g, cat(f.n, " parity"), f.f(-x), f.par*v, 1e-12*std::fabs(v) + (std::fabs(x) > 3 ? 0 : 3e-9));
}

struct F2d { const char* n; double (*f)(double,double); Q (*r)(Q,Q); bool even; int par; };
static const F2d f2d[] = {
   {"F8", T::F8, tlref::F8, true, 1}, {"F9", T::F9, tlref::F9, true, 1}, {"f5", T::f5, tlref::f5, false, 1},
   {"f6", T::f6, tlref::f6, false, 1}, {"f7", T::f7, tlref::f7, false, 1}, {"f8", T::f8, tlref::f8, false, -1}};

static double tol2(const F2d& f, double x, double y, double r)
{
   const double a = std::min(std::fabs(x), std::fabs(y)), b = std::max(std::fabs(x), std::fabs(y));
   double t = b > 3 ? 2e-10 : 8e-9;
   const std::string n = f.n;
   if (a < 0.0101 && std::fabs(b - 1) < 0.0101) { if (n == "F8") t = 4e-6; if (n == "f5") t = 1.2e-5; }
   if (b < 3e-4) { if (n == "f7") t = 5e-7; if (n == "f5") t = 5e-8; }
   // the definition itself amplifies rounding errors for large, nearly equal arguments
   const double d = f.even ? std::fabs(std::fabs(x) - std::fabs(y)) : std::fabs(x - y);
   return (2e-7 + (b > 10 && d > 9e-6 ? 4e-15*b/d : 0))*std::fabs(r) + t;
}

VF_SUB("two-arguments", 150000, 2000000)
{
   const F2d& f = f2d[g.below(6)];
   const char *ra, *rb;
   double x = arg(g, true, ra), y;
   switch (g.below(4)) {
   case 0: y = x*(1 + g.sign()*g.logu(1e-16, 1e-2)); rb = "close to the other"; g.nontrivial(); break;
   case 1: y = g.coin() ? -x : x; rb = "+- the other"; g.nontrivial(); break;
   default: y = arg(g, true, rb);
   }
   if (g.coin()) std::swap(x, y);
   if (x == 0 && y == 0 && f.f == T::F9) g.discard(); // diverges
   // products of the arguments underflow below 1e-75
   if ((x != 0 && std::fabs(x) > 1e15) || (y != 0 && std::fabs(y) > 1e15)) g.discard();
   g.note("function", f.n); g.note("x", x); g.note("y", y); g.label(cat(ra, ", ", rb));
   const double v = f.f(x, y);
   g.note("result", v);
   const double r = (double)tlref::two(f.r, x, y, f.even);
   const double t = tol2(f, x, y, r);
   close(g, cat(f.n, "(x,y) against its definition"), v, r, t);
   close(g, cat(f.n, " exchange symmetry"), f.f(y, x), v, t);
   close(g, cat(f.n, " under reversal of both signs"), f.f(-x, -y), f.par*v, t);
   if (f.even) close(g, cat(f.n, " under reversal of one sign"), f.f(-x, y), v, t);
}

VF_SUB("phi", 400000, 4000000)
{
   const double z = g.coin() ? g.logu(1e-6, 1e12) : 1;
   double x = z, y = z;
   const char* l = "";
   switch (g.below(8)) {
   case 0: x = z*g.uni(0, 1); y = z*g.uni(0, 1); l = "generic"; break;
   case 1: x = z*g.logu(1e-12, 1); y = z*g.logu(1e-12, 1); l = "hierarchical"; break;
   case 2: { const double t = g.logu(1e-7, 0.9); x = t*t*z; y = (1 - t)*(1 - t)*z*(1 + g.sign()*g.logu(1e-16, 0.3)); l = "next to lambda = 0"; break; }
   case 3: x = z; y = z*g.logu(1e-12, 4); l = "two equal"; break;
   case 4: x = z*(1 + g.sign()*g.logu(1e-16, 0.5)); y = z*(1 + g.sign()*g.logu(1e-16, 0.5)); l = "all similar"; break;
   case 5: x = z*g.logu(1e-18, 1e-2); y = z*(1 + g.sign()*g.logu(1e-16, 1)); l = "one small, two similar"; break;
   case 6: x = y = z*g.logu(1e-12, 1e12); l = "two equal"; break;
   default: x = z*2.2e-4*g.uni(0.3, 3); y = z*g.uni(0, 1); l = "switch-over";
   }
   if (x <= 0 || y <= 0) g.discard();
   g.label(l); g.note("x", x); g.note("y", y); g.note("z", z); g.nontrivial();
   const double m = std::max(x, std::max(y, z));
   const double v = T::phi_xyz(x, y, z), r = (double)tlref::phi(x, y, z);
   close(g, "phi_xyz against its definition", v, r, 4e-9*m + 1e-9*std::fabs(r));
   close(g, "phi_xyz permutation", T::phi_xyz(y, x, z), v, 1e-12*m);
   close(g, "phi_xyz permutation", T::phi_xyz(z, y, x), v, 1e-12*m);
   close(g, "phi_xyz permutation", T::phi_xyz(y, z, x), v, 1e-12*m);
   const Q X = x, Y = y, Z = z, d = X*X + Y*Y + Z*Z - 2*(X*Y + Y*Z + Z*X);
   close(g, "delta_xyz", T::delta_xyz(x, y, z), (double)d, 1e-14*m*m);
}
