// C10: the strong-coupling corrections have the dependence on the
// renormalisation scale required by the renormalisation group equations.
//
// Oracle: the one- and two-loop beta functions of the MSSM in the limit of
// vanishing gauge and Yukawa couplings other than g3 (S. Martin, M. Vaughn),
// applied by numerical differentiation along the flow:
//   dM2/dlnQ + b1 M1 = 0,  dM3/dlnQ + b1 M2 + b2 M1 = 0;
// for the one-loop correction the complete one-loop beta functions of the MSSM.
#include "vf.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "paths.hpp"
#include "queries.hpp"
#include <algorithm>
#include <functional>

using vf::Gen; using vf::cat;
using namespace himalaya;
namespace CO = himalaya::CouplingOrders;

static vf::Info info(
   "the logarithms of the scale contribute to the correction (the derivative with respect to the scale is not negligible)",
   {"the corrections depend on the squarks other than the stops through their average mass, as documented; the running of that average is the one of equal masses",
    "two- and three-loop corrections: beta functions of the MSSM through two loops in g3 only: corrections proportional to other couplings are of higher order in them and not part of the compared orders",
    "the three-loop corrections are expansions in mass ratios: the remainder must be small close to the expansion point"});

namespace {

constexpr double kappa = 1/(16*M_PI*M_PI);
double sq(double x) { return x*x; }

/// running parameters
struct Run {
   double Q = 1000, g3 = 1.05, mt = 150, mb = 2.5, At = 0, Ab = 0, MG = 1000;
   double q[3], u[3], d[3]; ///< squared soft masses
   double tb = 10, MA = 1000, mu = 500, other = 1000, g1 = 0, g2 = 0;
   bool bottom = false; ///< sbottoms run like stops
   double eps = 0; ///< 2: scheme of the three-loop expansions (mass of the epsilon scalars renormalised to zero)
};

Parameters make(const Run& r)
{
   Parameters p;
   const double b = std::atan(r.tb), v = 246;
   p.vu = v*std::sin(b); p.vd = v*std::cos(b);
   p.scale = r.Q; p.mu = r.mu; p.g1 = r.g1; p.g2 = r.g2; p.g3 = r.g3;
   p.Mt = r.mt; p.Mb = r.mb; p.Mtau = 0;
   p.Yu(2,2) = std::sqrt(2.)*p.Mt/p.vu; p.Yd(2,2) = std::sqrt(2.)*p.Mb/p.vd;
   for (int i = 0; i < 3; i++) {
      p.mq2(i,i) = r.q[i]; p.mu2(i,i) = r.u[i]; p.md2(i,i) = r.d[i];
      p.ml2(i,i) = p.me2(i,i) = sq(r.other);
   }
   p.Au(2,2) = r.At; p.Ad(2,2) = r.Ab; p.MG = r.MG; p.MA = r.MA; p.M1 = p.M2 = r.other;
   p.validate(false);
   return p;
}

/// evolution with the beta functions of the given order, coefficient of
/// kappa*g3^2 (1) or (kappa*g3^2)^2 (2)
Run evolve(const Run& a, int loop, double t)
{
   Run r = a;
   if (loop == 0) { r.Q *= std::exp(t); return r; }
   const double k = loop == 1 ? kappa*sq(a.g3) : sq(kappa*sq(a.g3));
   t *= k;
   // the corrections are functions of the geometric mean of the squared
   // masses of all squarks other than the stops
   double lnm = std::log(a.q[2]) + std::log(a.d[2]);
   for (int i = 0; i < 2; i++) lnm += 2*std::log(a.q[i]) + std::log(a.u[i]) + std::log(a.d[i]);
   const double msq2 = std::exp(lnm/10), s3 = a.q[2] + a.u[2] + 10*msq2;
   const double by = loop == 1 ? -16./3 : -16./9;
   const double bA = (loop == 1 ? 32./3 : 64./9)*a.MG;
   const double bm = loop == 1 ? -32./3*sq(a.MG) : -128./3*sq(a.MG) + 16./3*s3 + a.eps*(8./3*s3 - 16*sq(a.MG));
   const double bG = loop == 1 ? -6 : 56, bg = loop == 1 ? -3 : 14;
   // straight lines: the derivative at t = 0 is all that matters
   r.mt *= 1 + by*t; r.mb *= 1 + by*t; r.At += bA*t; r.Ab += bA*t; r.MG *= 1 + bG*t; r.g3 *= 1 + bg*t;
   r.q[2] += bm*t; r.u[2] += bm*t;
   const double e = 1 + (10*bm/msq2 - bm/a.q[2])/9*t;
   if (a.bottom) r.d[2] += bm*t; else r.d[2] *= e;
   for (int i = 0; i < 2; i++) { r.q[i] *= e; r.u[i] *= e; r.d[i] *= e; }
   return r;
}

/// derivative along the flow
template <class T>
T derivative(const Run& a, int loop, const std::function<T(const Run&)>& f)
{
   double h = 0.02;
   if (loop > 0) {
      // steps of 1 % of the parameter that changes most
      const Run b = evolve(a, loop, 1);
      double c = std::max({std::abs(b.mt/a.mt - 1), std::abs(b.MG/a.MG - 1), std::abs(b.g3/a.g3 - 1), std::abs(b.At - a.At)/std::pow(a.q[2]*a.u[2], 0.25)});
      for (int i = 0; i < 3; i++) c = std::max({c, std::abs(b.q[i]/a.q[i] - 1), std::abs(b.u[i]/a.u[i] - 1), std::abs(b.d[i]/a.d[i] - 1)});
      h = 0.01/c;
   }
   const auto D = [&] (double e) -> T { return (f(evolve(a, loop, e)) - f(evolve(a, loop, -e)))*(0.5/e); };
   const T x = D(h), y = D(2*h), z = D(3*h);
   return T(1.5*x - 0.6*y + 0.1*z);
}

void note(Gen& g, const Run& r)
{
   g.note("Q", r.Q); g.note("mt", r.mt); g.note("mb", r.mb); g.note("At", r.At); g.note("Ab", r.Ab); g.note("MG", r.MG); g.note("mu", r.mu); g.note("tb", r.tb); g.note("g3", r.g3);
   std::string s;
   for (int i = 0; i < 3; i++) s += cat(i ? ", " : "", std::sqrt(r.q[i]), " ", std::sqrt(r.u[i]), " ", std::sqrt(r.d[i]));
   g.note("mq, mu, md", s);
}

/// spectrum with well separated masses
Run general(Gen& g, double M, double spread)
{
   Run r;
   std::vector<double> used;
   const auto mass = [&] {
      for (int k = 0; k < 60; k++) {
         const double f = g.logu(1/spread, spread);
         bool ok = true;
         for (double x: used) if (std::abs(std::log(f/x)) < 0.12) ok = false;
         if (ok) { used.push_back(f); return f*M; }
      }
      g.discard(); return M;
   };
   r.MG = mass();
   r.q[2] = sq(mass()); r.u[2] = sq(mass()); r.d[2] = sq(mass());
   for (int i = 0; i < 2; i++) { r.q[i] = sq(M*g.logu(1/spread, spread)); r.u[i] = sq(M*g.logu(1/spread, spread)); r.d[i] = sq(M*g.logu(1/spread, spread)); }
   r.mt = g.uni(100, 180); r.mb = g.uni(1.5, 6); r.tb = g.logu(1.5, 40); r.g3 = g.uni(0.5, 1.2);
   r.mu = g.sign()*M*g.logu(0.2, 2); r.MA = M*g.logu(0.3, 3); r.other = M*g.logu(0.5, 2);
   const double x = g.coin(0.9) ? g.uni(-2.5, 2.5) : 0;
   r.At = x*std::pow(r.q[2]*r.u[2], 0.25) + r.mu/r.tb;
   r.Ab = g.uni(-1.5, 1.5)*std::pow(r.q[2]*r.d[2], 0.25) + r.mu*r.tb;
   r.Q = M*g.logu(0.2, 5);
   return r;
}

void only(mh2_eft::Mh2EFTCalculator& e, int on)
{
   for (int k = 0; k < CO::NUMBER_OF_COUPLING_ORDERS; k++) e.setCorrectionFlag(static_cast<CO::CouplingOrders>(k), k == on);
}

using D1 = double;
using M2 = Eigen::Matrix2d;

} // anonymous namespace

VF_SUB("effective theory", 60000, 2000000)
{
   const double M = g.logu(1e3, 1e6);
   Run r = general(g, M, 4);
   r.mb = r.Ab = 0; // no sbottom mixing
   note(g, r);
   using F = std::function<D1(const Run&)>;
   const F m1 = [] (const Run& x) { mh2_eft::Mh2EFTCalculator e(make(x), false); only(e, CO::YT4); return e.getDeltaMh2EFT1Loop(1, 1); };
   const F m2 = [] (const Run& x) { mh2_eft::Mh2EFTCalculator e(make(x), false); only(e, CO::G32YT4); return e.getDeltaMh2EFT2Loop(1, 1); };
   const F m3 = [] (const Run& x) { mh2_eft::Mh2EFTCalculator e(make(x), false); return e.getDeltaMh2EFT3Loop(1, 1, 1); };
   const double e1 = derivative(r, 1, m1), e2 = derivative(r, 0, m2);
   const double p = kappa*sq(sq(r.mt)/246)*2*kappa*sq(r.g3);
   const double tol2 = 1e-6*(20*p + std::abs(e1) + std::abs(e2));
   g.measure("two loops", std::abs(e1 + e2)/tol2);
   vf::close(g, "two loops: derivative wrt the scale vs renormalisation group", e2, -e1, tol2);
   const double f1 = derivative(r, 2, m1), f2 = derivative(r, 1, m2), f3 = derivative(r, 0, m3);
   const double tol3 = 1e-6*(500*p*kappa*sq(r.g3) + std::abs(f1) + std::abs(f2) + std::abs(f3));
   g.measure("three loops", std::abs(f1 + f2 + f3)/tol3);
   vf::close(g, "three loops: derivative wrt the scale vs renormalisation group", f3, -f1 - f2, tol3);
   if (std::abs(e2) > p && std::abs(f3) > 10*p*kappa) g.nontrivial();
}

VF_SUB("two loops", 90000, 3000000)
{
   const bool ab = g.coin(0.3);
   const double M = g.logu(300, 5e3);
   Run r = general(g, M, 3);
   if (ab) { r.mb = g.uni(2, 20); r.bottom = true; }
   note(g, r); g.note("bottom", ab);
   {
      Parameters p;
      try { p = make(r); } catch (const std::exception&) { g.discard(); }
      const double mf = ab ? p.Mb : p.Mt;
      if (sq((ab ? p.MSb : p.MSt)(0)) < 0.3*std::min(r.q[2], ab ? r.d[2] : r.u[2])) g.discard(); // numerical derivative
      // thresholds MG = m + mf, where digits are lost
      for (int i = 0; i < 2; i++) { const double m = (ab ? p.MSb : p.MSt)(i); if (std::abs(std::abs(p.MG - m) - mf) < 0.1*mf || std::abs(p.MG + mf - m) < 0.1*mf) g.discard(); }
   }
   using F = std::function<M2(const Run&)>;
   const auto calc = [&] (const Run& x, int loop) -> M2 {
      Parameters p;
      try { p = make(x); } catch (const std::exception&) { g.discard(); }
      HierarchyCalculator hc(p, false); HierarchyObject o(ab);
      return loop == 1 ? hc.getMt41L(o, 0, 0) : hc.getMt42L(o, 0, 0);
   };
   const F m1 = [&] (const Run& x) { return calc(x, 1); }, m2 = [&] (const Run& x) { return calc(x, 2); };
   const M2 a = derivative(r, 0, m2), b = derivative(r, 1, m1), R = a + b;
   // sbottom mixing: difference of almost equal numbers
   const double tol = (ab ? 1e-3 : 1e-5)*(a.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff());
   g.label(ab ? "bottom" : "top");
   for (int i = 0; i < 4; i++) {
      g.measure(cat(ab ? "bottom " : "top ", i), std::abs(R(i))/tol);
      g.require(std::abs(R(i)) <= tol, cat("derivative wrt the scale ", a, ", renormalisation group ", M2(-b)));
   }
   if (a.cwiseAbs().maxCoeff() > 100*tol) g.nontrivial();
}

VF_SUB("three loops", 200000, 3000000)
{
   const int h = g.below(14);
   const double e = g.logu(0.03, 0.3);
   const bool narrow = h == sel::h3 || h == sel::h32q2g || h == sel::h3q22g || h == sel::h9 || h == sel::h9q2 || h == sel::h4;
   // heavy enough for the expansion in Mt
   const double M = narrow ? g.logu(1.5e3, 2e4) : g.logu(1.5e3, 1e4)/e;
   paths::Path P; P.h = h; P.M = M; P.a = g.uni(0.4, 1); P.b = g.uni(-1, 1); P.c = g.uni(-1, 1.2);
   if (h >= sel::h6b && h <= sel::h6bq2g2) P.c = 0; // see the finding C12/h6b-squark-mass-difference
   double m1, m2, mg, mq; P.masses(e, m1, m2, mg, mq);
   Run r;
   const bool swap = g.coin();
   r.q[2] = sq(swap ? m1 : m2); r.u[2] = sq(swap ? m2 : m1); r.MG = mg;
   // sbottoms: the left-handed one shares the mass with a stop
   for (int i = 0; i < 2; i++) r.q[i] = r.u[i] = r.d[i] = sq(mq);
   r.d[2] = std::pow(mq, 4)/r.q[2];
   r.mt = g.uni(120, 180); r.mb = 0; r.tb = g.logu(1.5, 40); r.g3 = g.uni(0.8, 1.2);
   r.mu = M*g.uni(-1.5, 1.5)*(h == sel::h4 ? e : 1); r.other = r.MA = M;
   const double x = g.coin(0.8) ? g.uni(-2, 2) : 0;
   r.At = x*M*e + r.mu/r.tb;
   r.Q = M*g.logu(0.3, 3);
   note(g, r); g.note("eps", e); g.note("near", refin::name(h));
   const int sel = h;
   r.eps = 2;
   const std::function<M2(const Run&)> three = [&] (const Run& y) -> M2 {
      Parameters p;
      try { p = make(y); } catch (const std::exception&) { g.discard(); }
      HierarchyCalculator hc(p, false);
      HierarchyObject o(false); o.setMDRFlag(0); o.setSuitableHierarchy(h);
      return hc.calculateHierarchy(o, 0, 0, 1);
   };
   const auto calc = [&] (const Run& y, int loop) -> M2 {
      Parameters p;
      try { p = make(y); } catch (const std::exception&) { g.discard(); }
      HierarchyCalculator hc(p, false); HierarchyObject o(false);
      return loop == 1 ? hc.getMt41L(o, 0, 0) : hc.getMt42L(o, 0, 0);
   };
   using F = std::function<M2(const Run&)>;
   const F f1 = [&] (const Run& y) { return calc(y, 1); }, f2 = [&] (const Run& y) { return calc(y, 2); };
   const M2 a = derivative<M2>(r, 0, three), b = derivative(r, 1, f2), c = derivative(r, 2, f1), R = a + b + c;
   // the three contributions may have a common zero; unit: the square of a mass
   const double unit = 3/(2*M_PI*M_PI)*std::pow(r.mt, 4)/sq(246*std::sin(std::atan(r.tb)))*sq(kappa*sq(r.g3));
   const double S = std::max(a.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff() + c.cwiseAbs().maxCoeff(), (narrow ? 5e3 : h >= sel::h6b && h <= sel::h6bq2g2 ? 6e4 : 1.5e4)*unit);
   g.label(refin::name(sel));
   if (!R.allFinite()) g.discard();
   const double d = R.cwiseAbs().maxCoeff()/S;
   double bound;
   switch (h) {
   case sel::h3: case sel::h32q2g: case sel::h3q22g: bound = 0.012 + 2*e*e*e*e; break;
   case sel::h9: case sel::h9q2: bound = 0.02; break;
   case sel::h4: bound = 40*e*e; break;
   case sel::h5: case sel::h5g1: bound = 0.002 + 1*e*e; break;
   case sel::h6: bound = 0.005 + 6*e*e; break;
   case sel::h6g2: bound = 0.005 + 9*e*e; break;
   case sel::h6b: bound = 0.6; break;
   default: bound = 0.3 + 8*e;
   }
   g.measure(cat("three loops ", refin::name(sel)), d/bound);
   g.require(d <= bound, cat("three loops: derivative wrt the scale ", a, ", renormalisation group ", M2(-b - c), ", relative difference ", d, ", bound ", bound));
   if (bound < 0.7) g.nontrivial();
}

VF_SUB("one loop, all couplings", 60000, 3000000)
{
   // mass matrix of the CP-even Higgs bosons, any momentum: the two-point
   // function p^2 - M^2 - D(p^2) is renormalised by the anomalous dimensions of
   // the fields (Feynman gauge)
   struct Pars { double g1, g2, yt, yb, yl, vu, vd, b, mu; };
   const double M = g.logu(200, 5e3), spread = 3;
   const auto mass = [&] { return M*g.logu(1/spread, spread); };
   Parameters p;
   const double tb = g.logu(1.2, 40), v = g.uni(230, 260);
   p.vu = v*std::sin(std::atan(tb)); p.vd = v*std::cos(std::atan(tb));
   p.g1 = g.uni(0.1, 0.8); p.g2 = g.uni(0.1, 0.9); p.g3 = g.uni(0.5, 1.2);
   if (g.coin(0.1)) p.g1 = 1e-4;
   if (g.coin(0.1)) p.g2 = 1e-4;
   p.Yu(2,2) = g.uni(0.3, 1.1); p.Yd(2,2) = g.uni(0.02, 0.9); p.Ye(2,2) = g.uni(0.02, 0.7);
   for (int i = 0; i < 3; i++) { p.mq2(i,i) = sq(mass()); p.mu2(i,i) = sq(mass()); p.md2(i,i) = sq(mass()); p.ml2(i,i) = sq(mass()); p.me2(i,i) = sq(mass()); }
   p.mu = g.sign()*mass(); p.MA = mass(); p.MG = mass(); p.M1 = mass(); p.M2 = mass();
   p.Au(2,2) = g.uni(-2, 2)*mass(); p.Ad(2,2) = g.uni(-2, 2)*mass(); p.Ae(2,2) = g.uni(-2, 2)*mass();
   p.scale = mass();
   Parameters q = p;
   q.scale = p.scale*g.uni(1.5, 4);
   const double p2 = g.coin(0.3) ? 0. : sq(mass());
   g.note("tb", tb); g.note("v", v); g.note("g1, g2", cat(p.g1, ", ", p.g2)); g.note("yt, yb, ytau", cat(p.Yu(2,2), ", ", p.Yd(2,2), ", ", p.Ye(2,2)));
   g.note("mu, MA, M1, M2", cat(p.mu, ", ", p.MA, ", ", p.M1, ", ", p.M2)); g.note("At, Ab, Atau", cat(p.Au(2,2), ", ", p.Ad(2,2), ", ", p.Ae(2,2)));
   std::string s;
   for (int i = 0; i < 3; i++) s += cat(i ? "; " : "", std::sqrt(p.mq2(i,i)), " ", std::sqrt(p.mu2(i,i)), " ", std::sqrt(p.md2(i,i)), " ", std::sqrt(p.ml2(i,i)), " ", std::sqrt(p.me2(i,i)));
   g.note("mq, mu, md, ml, me", s); g.note("p^2", p2); g.note("scale", p.scale); g.note("second scale", q.scale);
   try { p.validate(false); q.validate(false); } catch (const std::exception&) { g.discard(); }
   const auto D = [&] (const Parameters& x) -> M2 { return mh2_fo::MSSM_mass_eigenstates(x).delta_mh2_1loop(p2); };
   const M2 d1 = D(p), d2 = D(q), dD = (d2 - d1)/std::log(q.scale/p.scale)/kappa;
   const auto tree = [] (const Pars& x) -> M2 {
      const double v2 = sq(x.vu) + sq(x.vd), sb = x.vu/std::sqrt(v2), cb = x.vd/std::sqrt(v2), A = x.b/(sb*cb), Z = (sq(x.g2) + 0.6*sq(x.g1))*v2/4;
      M2 m; m << A*sb*sb + Z*cb*cb, -(A + Z)*sb*cb, -(A + Z)*sb*cb, A*cb*cb + Z*sb*sb;
      return m;
   };
   const double yt = p.Yu(2,2), yb = p.Yd(2,2), yl = p.Ye(2,2);
   const Pars x{p.g1, p.g2, yt, yb, yl, p.vu, p.vd, sq(p.MA)*p.vu*p.vd/sq(v), p.mu};
   const auto flow = [&] (double t) {
      const double t2 = 3*yt*yt, b2 = 3*yb*yb + yl*yl, G1 = sq(x.g1), G2 = sq(x.g2), gv = 0.3*G1 + 1.5*G2;
      Pars r = x;
      r.g1 += t*6.6*G1*x.g1; r.g2 += t*G2*x.g2;
      r.vu += t*x.vu*(gv - t2); r.vd += t*x.vd*(gv - b2);
      r.b += t*(x.b*(t2 + b2 - 3*G2 - 0.6*G1) + x.mu*(6*yt*yt*p.Au(2,2) + 6*yb*yb*p.Ad(2,2) + 2*yl*yl*p.Ae(2,2) + 6*G2*p.M2 + 1.2*G1*p.M1));
      return r;
   };
   const double h = 1e-4;
   const M2 dM = (8*(tree(flow(h)) - tree(flow(-h))) - tree(flow(2*h)) + tree(flow(-2*h)))/(12*h);
   M2 gamma; gamma << 3*yb*yb + yl*yl, 0, 0, 3*yt*yt;
   const M2 G = p2*M2::Identity() - tree(x), R = gamma*G + G*gamma;
   double size = dM.cwiseAbs().maxCoeff() + dD.cwiseAbs().maxCoeff() + R.cwiseAbs().maxCoeff();
   for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
      g.measure(cat("one loop ", i, j), std::abs(dM(i,j) + dD(i,j) + R(i,j))/(2e-10*size));
      vf::close(g, cat("one loop, element ", i, j, ": derivative wrt the scale vs renormalisation group"), dD(i,j), -dM(i,j) - R(i,j), 2e-10*size);
   }
   g.nontrivial();
}
