// C13: for heavy superpartners the fixed-order and the effective-theory
// corrections agree up to O(v^2/M^2), order by order.
#include "vf.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include <initializer_list>

using vf::Gen; using vf::cat;
using namespace himalaya;
namespace CO = himalaya::CouplingOrders;

static vf::Info info(
   "all superpartners heavier than 100 Mt, at least one stop-mixing or mass ratio away from the degenerate unmixed point, correction not negligible",
   {"orders compared: 1-loop yt^4, yb^4, ytau^4, g1^2/g2^2 times yt^2, yb^2, ytau^2 (any tan(beta)), g1^4+g2^4+g1^2 g2^2 (tan(beta)=1, where the vev threshold omitted by the library cancels; any tan(beta) for the change with the superpartner masses, with the field renormalisation taken from the momentum dependence of the fixed-order result); 2-loop yt^4 g3^2 and yt^6",
    "the EFT treats bottom and tau as massless: the exactly known logarithm of the light fermion mass is added",
    "2-loop yt^6 of the EFT is evaluated with soft masses shifted by 2-3 % in the library: agreement required within the change of the fixed-order result under such shifts"});

namespace {

double sq(double x) { return x*x; }

struct Pattern {
   double f[28];           ///< mass factors
   double xt, xb, xl, Q, tb, M;
   int smu;
};

/// factors of the masses, some of them equal, otherwise at least 5 % apart
Pattern pattern(Gen& g, double fmin, double fmax)
{
   Pattern r;
   const int mode = g.below(3); // 0: all equal, 1: some equal, 2: all different
   for (int i = 0; i < 28; i++) {
      if (mode == 0 && i > 0) { r.f[i] = r.f[0]; continue; }
      if (mode == 1 && i > 0 && g.coin(0.4)) { r.f[i] = r.f[g.below(i)]; continue; }
      r.f[i] = g.logu(fmin, fmax);
      for (int j = 0; j < i; j++)
         if (r.f[i] != r.f[j] && std::abs(r.f[i]/r.f[j] - 1) < (i < 8 && j < 8 ? 0.05 : 0)) r.f[i] = r.f[j];
   }
   // 0..4: third generation q, u, d, l, e; 5: MG; 6: mu; 7: MA; 8, 9: M1, M2; 10..19: generations 1, 2
   r.xt = g.coin(0.8) ? g.sign()*g.uni(0, 2.5) : 0;
   r.xb = g.sign()*g.uni(0, 1.5);
   r.xl = g.sign()*g.uni(0, 1.5);
   r.Q = g.coin(0.7) ? g.logu(0.4, 2.5) : 1;
   r.tb = g.logu(1.2, 25);
   r.smu = g.coin() ? -1 : 1;
   r.M = 0;
   return r;
}

Parameters make(const Pattern& r, double M, double tb, double g1, double g2, double yt, double yb, double yl)
{
   Parameters p;
   const double b = std::atan(tb), v = 246;
   p.vu = v*std::sin(b); p.vd = v*std::cos(b);
   p.scale = r.Q*M; p.mu = r.smu*r.f[6]*M; p.g1 = g1; p.g2 = g2; p.g3 = 1.05;
   const int gen[3] = {10, 15, 0};
   for (int i = 0; i < 3; i++) {
      const double* f = r.f + gen[i];
      p.mq2(i,i) = sq(f[0]*M); p.mu2(i,i) = sq(f[1]*M); p.md2(i,i) = sq(f[2]*M);
      p.ml2(i,i) = sq(f[3]*M); p.me2(i,i) = sq(f[4]*M);
   }
   const double mt = M*std::sqrt(r.f[0]*r.f[1]), mb = M*std::sqrt(r.f[0]*r.f[2]), ml = M*std::sqrt(r.f[3]*r.f[4]);
   p.Au(2,2) = r.xt*mt + p.mu/tb; p.Ad(2,2) = r.xb*mb + p.mu*tb; p.Ae(2,2) = r.xl*ml + p.mu*tb;
   p.Yu(2,2) = yt; p.Yd(2,2) = yb; p.Ye(2,2) = yl;
   p.M1 = r.f[8]*M; p.M2 = r.f[9]*M; p.MG = r.f[5]*M; p.MA = r.f[7]*M;
   if (yt == 0) p.Mt = 0;
   if (yb == 0) p.Mb = 0;
   if (yl == 0) p.Mtau = 0;
   p.validate(false);
   return p;
}

double fmin(const Pattern& r) { double m = 1e9; for (int i = 0; i < 20; i++) m = std::min(m, r.f[i]); return m; }

void only(mh2_eft::Mh2EFTCalculator& e, std::initializer_list<int> on)
{
   for (int k = 0; k < CO::NUMBER_OF_COUPLING_ORDERS; k++) e.setCorrectionFlag(static_cast<CO::CouplingOrders>(k), 0);
   for (int k: on) e.setCorrectionFlag(static_cast<CO::CouplingOrders>(k), 1);
}

double eft1(const Parameters& p, std::initializer_list<int> on)
{
   mh2_eft::Mh2EFTCalculator e(p, false);
   only(e, on);
   return e.getDeltaMh2EFT1Loop(1, 1);
}

double eft2(const Parameters& p, std::initializer_list<int> on)
{
   mh2_eft::Mh2EFTCalculator e(p, false);
   only(e, on);
   return e.getDeltaMh2EFT2Loop(1, 1);
}

double fo1(const Parameters& p) { return std::get<1>(mh2_fo::MSSM_mass_eigenstates(p).calculate_Mh2()); }

/// two-loop correction of the enabled orders (including the momentum iteration)
double fo2(const Parameters& p, std::initializer_list<int> on)
{
   mh2_fo::MSSM_mass_eigenstates m(p);
   for (int k = 0; k < CO::NUMBER_OF_COUPLING_ORDERS; k++) m.set_correction(static_cast<CO::CouplingOrders>(k), 0);
   for (int k: on) m.set_correction(static_cast<CO::CouplingOrders>(k), 1);
   return std::get<2>(m.calculate_Mh2());
}

/// rounding noise of a fixed-order result: its largest change under tiny
/// changes of the masses
template <class F>
double noise(const Pattern& r, double value, F f)
{
   double n = 2e-17*sq(r.M)*(1 + r.tb);
   for (int k = 0; k < 6; k++) {
      Pattern q = r;
      for (int i = 0; i < 28; i++) q.f[i] *= 1 + 1e-12*std::sin(1 + 7.3*i + 3.1*k);
      n = std::max(n, std::abs(f(q) - value));
   }
   return n;
}

void describe(Gen& g, Pattern& r, double M)
{
   r.M = M;
   g.note("M", M); g.note("tb", r.tb); g.note("xt", r.xt); g.note("xb", r.xb); g.note("xtau", r.xl); g.note("Q/M", r.Q); g.note("sign(mu)", r.smu);
   std::string s;
   for (int i = 0; i < 20; i++) s += cat(i ? "," : "", r.f[i]);
   g.note("mq3,mu3,md3,ml3,me3,MG,mu,MA,M1,M2,generations 1,2 [M]", s);
}

/// largest relative suppression factor of the neglected terms
double power(const Pattern& r, double M, double mt)
{
   const double x = std::max({1., std::abs(r.xt), std::abs(r.xb), std::abs(r.xl)});
   return sq(mt*(1 + x)*(1 + x)/(fmin(r)*M));
}

constexpr double kappa = 1/(16*M_PI*M_PI);

} // anonymous namespace

VF_SUB("top Yukawa and strong", 60000, 2000000)
{
   Pattern r = pattern(g, 0.35, 2.5);
   const double yt = g.uni(0.5, 1.1);
   // fixed-order expressions are numerically unstable for extremely degenerate stops
   const double M = g.logu(2e4, r.f[0] == r.f[1] ? 5e4 : 2e5);
   describe(g, r, M); g.note("yt", yt);
   const Parameters p = make(r, M, r.tb, 0, 0, yt, 0, 0);
   const double e1 = eft1(p, {CO::YT4}), f1 = fo1(p);
   const double e2 = eft2(p, {CO::G32YT4}), f2 = fo2(p, {CO::G32YT4}) - fo2(p, {});
   const double pw = power(r, M, p.Mt);
   const double s1 = 12*kappa*sq(sq(p.Mt))/(sq(p.vu) + sq(p.vd))*2*(std::log(sq(M/p.Mt)) + 1);
   const double s2 = s1*kappa*sq(p.g3)*16*std::log(sq(M/p.Mt));
   if (r.xt != 0 && r.f[0] != r.f[1]) g.nontrivial();
   g.label(r.f[0] == r.f[1] ? "mQ3 = mU3" : r.f[0] == r.f[5] || r.f[1] == r.f[5] ? "one stop mass = MG" : "different masses");
   g.measure("O(at)", std::abs(e1 - f1)/(s1*(20*pw + 1e-8)));
   vf::close(g, "one-loop O(at): EFT vs fixed order", e1, f1, s1*(20*pw + 1e-8));
   double tol = s2*(60*pw + 1e-6);
   if (!(std::abs(e2 - f2) < tol)) {
      const auto f = [&] (const Pattern& q) { const Parameters x = make(q, M, r.tb, 0, 0, yt, 0, 0); return fo2(x, {CO::G32YT4}) - fo2(x, {}); };
      tol += 60*noise(r, f2, f);
      g.label("fixed-order rounding noise");
   }
   vf::close(g, "two-loop O(at*as): EFT vs fixed order", e2, f2, tol);
   // default: O(at) and O(at*as + at^2)
   mh2_eft::Mh2EFTCalculator d(p, false);
   vf::close(g, "default one-loop correction", d.getDeltaMh2EFT1Loop(1, 1), e1, 1e-12*s1);
   vf::close(g, "default two-loop correction", d.getDeltaMh2EFT2Loop(1, 1), e2 + eft2(p, {CO::YT6}), 1e-12*(std::abs(e2) + s2));
}

VF_SUB("top Yukawa squared", 40000, 1500000)
{
   Pattern r = pattern(g, 0.4, 2.2);
   const double yt = g.uni(0.5, 1.1);
   // in the library's formula the masses are shifted by 2-3 %
   const auto apart = [] (double a, double b) { return std::abs(a/b - 1) > 0.12; };
   const bool general = apart(sq(r.f[0]), sq(r.f[1]));
   if (!general) { r.f[1] = r.f[0]; r.f[7] = r.f[0]; }
   r.f[2] = 1.3*r.f[0]; // nearly degenerate sbottoms are numerically unstable for mb -> 0
   // fixed-order expressions are numerically unstable for extremely degenerate stops
   const double M = g.logu(2e4, r.f[0] == r.f[1] ? 5e4 : 2e5);
   describe(g, r, M); g.note("yt", yt);
   const auto calc = [&] (double a, double b, double c) {
      Pattern q = r; const double x = r.xt*std::sqrt(r.f[0]*r.f[1]);
      q.f[0] *= a; q.f[1] *= b; q.f[6] *= c;
      // away from exact thresholds
      for (int i = 0; i < 28; i++) q.f[i] *= 1 + 2e-5*std::sin(1 + 2.3*i);
      q.xt = x/std::sqrt(q.f[0]*q.f[1]);
      return fo2(make(q, M, r.tb, 0, 0, yt, 0, 0), {CO::YT6});
   };
   const Parameters p = make(r, M, r.tb, 0, 0, yt, 0, 0);
   const double e = eft2(p, {CO::YT6});
   double f = calc(1, 1, 1);
   for (int k = 1; k < 6 && !std::isfinite(f); k++) { f = calc(1 + k*1e-5, 1, 1 - k*1e-5); g.label("fixed-order NaN repeated"); }
   double var = 0;
   if (general) {
      for (double d: {0.99, 1.01}) {
         double s = 0;
         s += std::abs(calc(d, 1, 1) - f) + std::abs(calc(1, d, 1) - f);
         s += 1.5*std::abs(calc(1, 1, d) - f);
         var = std::max(var, s);
      }
   }
   const double pw = power(r, M, p.Mt);
   const double s = 12*kappa*sq(sq(p.Mt))/(sq(p.vu) + sq(p.vd))*2*std::log(sq(M/p.Mt))*kappa*sq(yt)*6;
   g.note("EFT", e); g.note("fixed order", f); g.note("change by shift of masses", var);
   if (r.xt != 0) g.nontrivial();
   g.label(general ? "different masses" : "equal masses");
   double tol = 2*var + 0.004*std::abs(f) + s*(60*pw + 0.001);
   g.note("tolerance", tol);
   if (!(std::abs(e - f) < tol)) {
      tol += 60*noise(r, f, [&] (const Pattern& q) { const double x = fo2(make(q, M, r.tb, 0, 0, yt, 0, 0), {CO::YT6}); return std::isfinite(x) ? x : f; });
      g.label("fixed-order rounding noise");
   }
   vf::close(g, "two-loop O(at^2): EFT vs fixed order", e, f, tol);
}

VF_SUB("bottom and tau Yukawa", 40000, 1500000)
{
   Pattern r = pattern(g, 0.35, 2.5);
   const double M = g.logu(2e4, 2e5), yb = g.uni(0.2, 1), yl = g.uni(0.2, 1), mt = g.uni(100, 180);
   describe(g, r, M); g.note("yb", yb); g.note("ytau", yl); g.note("Mt", mt);
   if (r.xb != 0) g.nontrivial();
   for (int tau = 0; tau < 2; tau++) {
      Parameters p = make(r, M, r.tb, 0, 0, 0, tau ? 0 : yb, tau ? yl : 0);
      const double f = fo1(p);
      const double m = tau ? p.Mtau : p.Mb, y = tau ? yl : yb, n = tau ? 2 : 6;
      p.Mt = mt;
      const double pre = n*sq(sq(y))*kappa*sq(sq(p.vd))/(sq(p.vu) + sq(p.vd));
      const double e = eft1(p, {tau ? CO::YTAU4 : CO::YB4}) + pre*std::log(sq(mt/m));
      double tol = pre*(std::log(sq(M/m)) + 1)*(20*power(r, M, m) + 1e-7);
      if (!(std::abs(e - f) < tol)) {
         tol += 20*noise(r, f, [&] (const Pattern& q) { return fo1(make(q, M, r.tb, 0, 0, 0, tau ? 0 : yb, tau ? yl : 0)); });
         g.label("fixed-order rounding noise");
      }
      vf::close(g, cat("one-loop O(", tau ? "atau" : "ab", "): EFT vs fixed order"), e, f, tol);
   }
}

VF_SUB("electroweak gauge", 40000, 1500000)
{
   Pattern r = pattern(g, 0.35, 2.5);
   const double M = g.logu(2e4, 2e5);
   double g1 = g.coin(0.3) ? 0 : g.uni(0.2, 0.8), g2 = g.coin(0.3) && g1 != 0 ? 0 : g.uni(0.2, 0.8);
   describe(g, r, M); g.note("g1", g1); g.note("g2", g2);
   const Parameters p = make(r, M, 1, g1, g2, 1e-4, 0, 0);
   const double e = eft1(p, {CO::G14, CO::G24, CO::G12G22}), f = fo1(p);
   g.nontrivial();
   const double s = kappa*(sq(p.vu) + sq(p.vd))*sq(sq(g1) + sq(g2))*std::log(sq(M/100));
   double tol = s*(10*sq(100/(fmin(r)*M)) + 1e-6);
   if (!(std::abs(e - f) < tol)) {
      tol += 20*noise(r, f, [&] (const Pattern& q) { return fo1(make(q, M, 1, g1, g2, 1e-4, 0, 0)); });
      g.label("fixed-order rounding noise");
   }
   vf::close(g, "one-loop O(g^4) for tan(beta)=1: EFT vs fixed order", e, f, tol);
}

VF_SUB("electroweak gauge, any tan(beta)", 40000, 1500000)
{
   // change of the corrections with the heavy masses
   Pattern r = pattern(g, 0.35, 2.5), q = r;
   const double M = g.logu(5e4, 3e5);
   const int part = g.below(4); // 0: electroweakinos, 1: MA, 2: sfermions, 3: all
   static const char* const parts[] = {"M1, M2, mu", "MA", "sfermions", "all masses"};
   for (int i = 0; i < 20; i++) {
      const int kind = i == 6 || i == 8 || i == 9 ? 0 : i == 7 ? 1 : i == 5 ? 4 : 2;
      if (part == 3 || kind == part) q.f[i] = g.coin(0.2) ? r.f[g.below(20)] : g.logu(0.35, 2.5);
   }
   const double g1 = g.coin(0.3) ? 0 : g.uni(0.2, 0.8), g2 = g.coin(0.3) && g1 != 0 ? 0 : g.uni(0.2, 0.8);
   describe(g, r, M); q.M = M; g.note("g1", g1); g.note("g2", g2); g.note("changed", parts[part]); g.label(parts[part]);
   std::string list;
   for (int i = 0; i < 20; i++) list += cat(i ? "," : "", q.f[i]);
   g.note("changed masses [M]", list);
   const double f = std::min(fmin(r), fmin(q)), h = 1e-3*sq(f*M);
   const auto calc = [&] (const Pattern& x) {
      const Parameters p = make(x, M, r.tb, g1, g2, 1e-4, 0, 0);
      const double v2 = sq(p.vu) + sq(p.vd), sb = p.vu/std::sqrt(v2), cb = p.vd/std::sqrt(v2), m2 = sq(p.MZ*(cb*cb - sb*sb));
      const mh2_fo::MSSM_mass_eigenstates m(p);
      const auto D = [&] (double p2) { const auto d = m.delta_mh2_1loop(p2); return cb*cb*d(0,0) + 2*sb*cb*d(0,1) + sb*sb*d(1,1); };
      // the field renormalisation by the superpartners is not part of the vacuum
      // expectation value used by the EFT
      const double deriv = (-11*D(0) + 18*D(h) - 9*D(2*h) + 2*D(3*h))/(6*h);
      return std::get<1>(m.calculate_Mh2()) - eft1(p, {CO::G14, CO::G24, CO::G12G22}) + m2*deriv;
   };
   const double a = calc(r), b = calc(q);
   const double s = kappa*sq(246)*sq(sq(g1) + sq(g2))*std::log(sq(M/100));
   double tol = s*(5*sq(100/(f*M)) + 2e-6);
   // the two-point functions of the library are accurate to 1e-9 for nearly
   // equal masses (here of neutralinos and charginos)
   for (const Pattern* x: {&r, &q}) for (int i: {6, 8, 9}) for (int j: {6, 8, 9})
      if (i < j && std::abs(x->f[i]/x->f[j] - 1) < 0.01) tol += 1e-9*kappa*(sq(g1) + sq(g2))*sq(x->f[i]*M);
   if (!(std::abs(a - b) < tol)) {
      tol += 20*(noise(r, a, calc) + noise(q, b, calc));
      g.label("fixed-order rounding noise");
   }
   g.measure(parts[part], std::abs(a - b)/tol);
   g.note("fixed order - EFT", cat(a, ", ", b));
   if (std::abs(std::log(r.tb)) > 0.3) g.nontrivial();
   vf::close(g, "one-loop O(g^4): fixed order - EFT for two sets of superpartner masses", a, b, tol);
}

VF_SUB("electroweak gauge times Yukawa", 40000, 1500000)
{
   Pattern r = pattern(g, 0.35, 2.5);
   const double M = g.logu(1.5e4, 6e4);
   const int which = g.below(3); // top, bottom, tau
   const bool hyper = g.coin();
   const double y = g.uni(0.4, 1);
   static const char* names[] = {"top", "bottom", "tau"};
   describe(g, r, M); g.note("fermion", names[which]); g.note("coupling", hyper ? "g1" : "g2"); g.note("y", y);
   g.label(cat(hyper ? "g1^2 " : "g2^2 ", names[which]));
   const double tb = which == 0 ? r.tb : std::min(r.tb, 8.);
   const auto pointOf = [&] (const Pattern& q, double c, double yy) {
      const double t = 1e-6;
      return make(q, M, tb, hyper ? c : 0, hyper ? 0 : c, which == 0 ? yy : t, which == 1 ? yy : which == 0 ? 0 : t, which == 2 ? yy : 0);
   };
   // coefficient of g^2 y^2
   const auto coeffOf = [&] (const Pattern& q, double c) { return (fo1(pointOf(q, c, y)) - fo1(pointOf(q, c, 1e-6)) - fo1(pointOf(q, 0, y)))/sq(c); };
   const auto point = [&] (double c, double yy) { return pointOf(r, c, yy); };
   const auto coeff = [&] (double c) { return coeffOf(r, c); };
   const Parameters p0 = point(0, y);
   const double m = which == 0 ? p0.Mt : which == 1 ? p0.Mb : p0.Mtau;
   // MZ << m
   const double c = 0.2*m/123;
   const double f1 = coeff(c), f2 = coeff(c/2), f = (4*f2 - f1)/3;
   Parameters p = point(c, y);
   const double v2 = sq(p.vu) + sq(p.vd), c2b = (sq(p.vd) - sq(p.vu))/v2;
   const double pre = (hyper ? 3/5. : 1)*(which == 2 ? 1 : 3)*kappa*sq(y)*sq(c2b)*(which == 0 ? sq(p.vu) : sq(p.vd))/4;
   double e;
   if (which == 0)
      e = eft1(p, {hyper ? CO::G12YT2 : CO::G22YT2})/sq(c);
   else {
      p.Mt = 172;
      const double mh2 = sq(c2b*p.MZ);
      const int o = which == 1 ? (hyper ? CO::G12YB2 : CO::G22YB2) : (hyper ? CO::G12YTAU2 : CO::G22YTAU2);
      // massless fermion at p^2 = mh^2 replaced by a massive one at p^2 = 0
      const double b0 = 2 - std::log(mh2/sq(p.Mt));
      e = eft1(p, {o})/sq(c) + pre*(2./3 + std::log(sq(m/p.Mt)) + b0);
   }
   if (std::abs(c2b) > 0.1) g.nontrivial();
   const double scale = pre*(std::log(sq(M/m)) + 2) + kappa*sq(y)*(which == 0 ? sq(p.vu) : sq(p.vd))*std::abs(c2b);
   g.note("EFT", e); g.note("fixed order", f); g.note("step error", f2 - f1);
   double tol = scale*(50*power(r, M, m) + 1e-5) + 0.5*std::abs(f2 - f1);
   if (!(std::abs(e - f) < tol)) {
      tol += 20*noise(r, f, [&] (const Pattern& q) { return (4*coeffOf(q, c/2) - coeffOf(q, c))/3; });
      g.label("fixed-order rounding noise");
   }
   vf::close(g, "one-loop O(g^2 y^2): EFT vs fixed order", e, f, tol);
}
