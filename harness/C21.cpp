// C21: the corrections of the effective theory have the logarithms required by
// the renormalisation group of the SM and the MSSM; the two renormalisation
// schemes are related by the conversion of the couplings; the orders in the
// couplings can be switched on and off one by one.
//
// Oracles: one-loop beta functions of the MSSM (gaugeless limit; S. Martin,
// M. Vaughn) by numerical differentiation along the flow, beta functions of the
// SM quartic coupling, exchange of the two Higgs doublets, conversion of
// couplings by expansion, effective potential of a single sfermion, sums of the
// separate orders.
#include "vf.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "paths.hpp"
#include <algorithm>
#include <array>
#include <functional>

using vf::Gen; using vf::cat;
using namespace himalaya;
using namespace himalaya::mh2_eft;
namespace CO = himalaya::CouplingOrders;
using TC = ThresholdCouplingOrders;

static vf::Info info(
   "stop, sbottom and stau mixing do not vanish and the compared derivatives are not negligible",
   {"gaugeless limit for the two-loop Yukawa corrections: the beta functions contain the third-generation Yukawa couplings only",
    "spectra with well separated masses away from thresholds, so that the numerical derivatives do not cross the boundaries between the formulas (C20 compares the formulas with each other)",
    "logarithms of the masses of the light fermions inside the two-loop corrections of the EFT are approximated by constants (B00DR = 0); only the terms that depend on two logarithms of the scale are compared there",
    "thresholds of O(yt^6) are evaluated for masses shifted by 2 %"});

namespace {

constexpr double kappa = 1/(16*M_PI*M_PI);
double sq(double x) { return x*x; }

struct Pt {
   double Q = 1000, yt = 0.8, yb = 0.3, yl = 0.2, vu = 240, vd = 50, mu = 700, At = 0, Ab = 0, Al = 0;
   double q, u, d, l, e, MA, MG = 1000, M1 = 900, M2 = 1100, g1 = 0, g2 = 0, g3 = 0;
   double q12 = 1e6; ///< first and second generation
   double MZ = 0;
};

Parameters make(const Pt& x)
{
   Parameters p;
   p.scale = x.Q; p.mu = x.mu; p.g1 = x.g1; p.g2 = x.g2; p.g3 = x.g3; p.vu = x.vu; p.vd = x.vd;
   p.Yu(2,2) = x.yt; p.Yd(2,2) = x.yb; p.Ye(2,2) = x.yl;
   p.Mt = x.yt*x.vu/std::sqrt(2.); p.Mb = x.yb*x.vd/std::sqrt(2.); p.Mtau = x.yl*x.vd/std::sqrt(2.);
   for (int i = 0; i < 2; i++) p.mq2(i,i) = p.mu2(i,i) = p.md2(i,i) = p.ml2(i,i) = p.me2(i,i) = x.q12;
   p.mq2(2,2) = x.q; p.mu2(2,2) = x.u; p.md2(2,2) = x.d; p.ml2(2,2) = x.l; p.me2(2,2) = x.e;
   p.Au(2,2) = x.At; p.Ad(2,2) = x.Ab; p.Ae(2,2) = x.Al;
   p.MA = x.MA; p.MG = x.MG; p.M1 = x.M1; p.M2 = x.M2;
   // not used by the corrections of the effective theory
   p.MSt << std::sqrt(x.q), std::sqrt(x.u); p.MSb << std::sqrt(x.q), std::sqrt(x.d); p.MStau << std::sqrt(x.l), std::sqrt(x.e);
   p.theta_t = p.theta_b = p.theta_tau = 0.1; p.s2t = p.s2b = p.s2tau = std::sin(0.2);
   const double v = std::hypot(x.vu, x.vd);
   p.MW = x.g2 > 0 ? x.g2*v/2 : 1e-5; p.MZ = x.g2 > 0 ? std::sqrt(sq(x.g2) + 0.6*sq(x.g1))*v/2 : 1e-5;
   p.validate(false);
   return p;
}

/// one-loop running: k = 0, 1, 2: terms with yt^2, yb^2, ytau^2; 3: g3^2
Pt flow(const Pt& a, int k, double t)
{
   Pt r = a;
   const double t2 = k == 0 ? sq(a.yt) : 0, b2 = k == 1 ? sq(a.yb) : 0, l2 = k == 2 ? sq(a.yl) : 0, s = k == 3 ? sq(a.g3) : 0;
   const double tb2 = sq(a.vu/a.vd), sb2 = tb2/(1 + tb2), cb2 = 1/(1 + tb2);
   const double hu = sq(a.MA)*cb2 - sq(a.mu), hd = sq(a.MA)*sb2 - sq(a.mu);
   const double Xt = 2*t2*(hu + a.q + a.u + sq(a.At)), Xb = 2*b2*(hd + a.q + a.d + sq(a.Ab)), Xl = 2*l2*(hd + a.l + a.e + sq(a.Al));
   r.yt *= 1 + t*(6*t2 + b2 - 16./3*s); r.yb *= 1 + t*(6*b2 + t2 + l2 - 16./3*s); r.yl *= 1 + t*(4*l2 + 3*b2);
   r.At += t*(12*t2*a.At + 2*b2*a.Ab + 32./3*s*a.MG); r.Ab += t*(12*b2*a.Ab + 2*t2*a.At + 2*l2*a.Al + 32./3*s*a.MG); r.Al += t*(8*l2*a.Al + 6*b2*a.Ab);
   r.mu *= 1 + t*(3*t2 + 3*b2 + l2);
   const double S = -32./3*s*sq(a.MG);
   r.q += t*(Xt + Xb + S); r.u += t*(2*Xt + S); r.d += t*(2*Xb + S); r.l += t*Xl; r.e += t*2*Xl;
   r.vu *= 1 - 3*t*t2; r.vd *= 1 - t*(3*b2 + l2);
   r.MG *= 1 - 6*s*t; r.g3 *= 1 - 3*s*t;
   return r;
}

using F = std::function<double(double)>;

/// derivative at zero
double der(const F& f, double h)
{
   const auto D = [&] (double e) { return (f(e) - f(-e))/(2*e); };
   return 1.5*D(h) - 0.6*D(2*h) + 0.1*D(3*h);
}

/// step for which no parameter changes by more than 0.5 %
double step(const Pt& a, int k)
{
   const Pt b = flow(a, k, 1);
   double c = 1e-3;
   for (double r: {b.q/a.q, b.u/a.u, b.d/a.d, b.l/a.l, b.e/a.e, b.mu/a.mu, b.MG/a.MG, b.vu/a.vu, b.vd/a.vd, b.yt/a.yt, b.yb/a.yb, b.yl/a.yl}) c = std::max(c, std::abs(r - 1));
   c = std::max({c, std::abs(b.At - a.At)/std::sqrt(a.q), std::abs(b.Ab - a.Ab)/std::sqrt(a.q), std::abs(b.Al - a.Al)/std::sqrt(a.l)});
   return 0.005/c;
}

double threshold(const Pt& x, TC o, RenSchemes s = RenSchemes::DRBARPRIME)
{
   return ThresholdCalculator(make(x), false).getThresholdCorrection(o, s, 1);
}

void only(Mh2EFTCalculator& e, int on)
{
   for (int k = 0; k < CO::NUMBER_OF_COUPLING_ORDERS; k++) e.setCorrectionFlag(static_cast<CO::CouplingOrders>(k), k == on);
}

/// well separated masses
Pt point(Gen& g, double spread)
{
   Pt x;
   const double M = g.logu(400, 5000);
   std::vector<double> used;
   const auto mass = [&] {
      for (int k = 0; k < 100; k++) {
         const double f = g.logu(1/spread, spread);
         if (std::all_of(used.begin(), used.end(), [&] (double y) { return std::abs(std::log(f/y)) > 0.13; })) { used.push_back(f); return f*M; }
      }
      g.discard(); return M;
   };
   const double q = mass(), u = mass(), d = mass();
   x.mu = g.sign()*mass(); x.MA = mass(); x.MG = mass();
   const double l = mass(), e = mass();
   for (double a: {q, u, d, l, e}) for (double b: {q, u, d, l, e})
      if (std::abs(x.MA/(a + b) - 1) < 0.07 || (a != b && std::abs(x.MA/std::abs(a - b) - 1) < 0.07)) g.discard();
   x.q = q*q; x.u = u*u; x.d = d*d; x.l = l*l; x.e = e*e;
   const double tb = g.logu(1.2, 15), v = g.uni(230, 260);
   x.vu = v*std::sin(std::atan(tb)); x.vd = v*std::cos(std::atan(tb));
   x.yt = g.uni(0.5, 1.1); x.yb = g.uni(0.1, 0.9); x.yl = g.uni(0.1, 0.7);
   const auto mix = [&] (double m) { return g.coin(0.85) ? g.uni(-2.5, 2.5)*m : 0; };
   x.At = mix(std::sqrt(q*u)) + x.mu/tb; x.Ab = mix(std::sqrt(q*d)) + x.mu*tb; x.Al = mix(std::sqrt(l*e)) + x.mu*tb;
   x.Q = M*g.logu(0.3, 3);
   x.M1 = M*g.logu(0.5, 2); x.M2 = M*g.logu(0.5, 2); x.q12 = sq(M*g.logu(0.5, 2));
   return x;
}

void note(Gen& g, const Pt& x)
{
   g.note("Q", x.Q); g.note("yt, yb, ytau", cat(x.yt, ", ", x.yb, ", ", x.yl)); g.note("tan(beta)", x.vu/x.vd); g.note("v", std::hypot(x.vu, x.vd));
   g.note("mu", x.mu); g.note("MA", x.MA); g.note("MG", x.MG); g.note("At, Ab, Atau", cat(x.At, ", ", x.Ab, ", ", x.Al));
   g.note("mq, mu, md, ml, me", cat(std::sqrt(x.q), ", ", std::sqrt(x.u), ", ", std::sqrt(x.d), ", ", std::sqrt(x.l), ", ", std::sqrt(x.e)));
}

/// order y_f^4 y_k^2
struct Order { const char* name; int k, f; TC two, y; CO::CouplingOrders co; double b2; };
const std::vector<Order>& orders()
{
   static const std::vector<Order> o = {
      {"yt^6", 0, 0, TC::LAMBDA_YT6, TC::YT_YT, CO::YT6, 60},
      {"yt^4*yb^2", 1, 0, TC::LAMBDA_YT4_YB2, TC::YT_YB, CO::YB2YT4, -12},
      {"yt^2*yb^4", 0, 1, TC::LAMBDA_YT2_YB4, TC::YB_YT, CO::YT2YB4, -12},
      {"yb^6", 1, 1, TC::LAMBDA_YB6, TC::YB_YB, CO::YB6, 60},
      {"ytau^6", 2, 2, TC::LAMBDA_YTAU6, TC::YTAU_YTAU, CO::YTAU6, 20},
      {"ytau^4*yb^2", 1, 2, TC::LAMBDA_YTAU4_YB2, TC::YTAU_YB, CO::YTAU4YB2, 0},
      {"ytau^2*yb^4", 2, 1, TC::LAMBDA_YTAU2_YB4, TC::YB_YB /* none */, CO::YTAU2YB4, 0}};
   return o;
}
const double nc4[3] = {12, 12, 4};
constexpr TC oneLoop[3] = {TC::LAMBDA_AT, TC::LAMBDA_YB4, TC::LAMBDA_YTAU4};

double cosine(const Pt& x, int f) { return (f == 0 ? x.vu : x.vd)/std::hypot(x.vu, x.vd); }
double yukawa(const Pt& x, int f) { return f == 0 ? x.yt : f == 1 ? x.yb : x.yl; }

/// change of a function when the masses are shifted by as much as in the threshold of O(yt^6)
double shifts(const std::function<double(const Pt&)>& f, const Pt& x)
{
   const double f0 = f(x);
   double sum = 0;
   for (int k = 0; k < 3; k++) {
      double c = 0;
      for (double e: {0.98, 1.02}) {
         Pt y = x;
         if (k == 0) y.q *= e; else if (k == 1) y.u *= e; else y.mu *= 1 + 0.75*(e - 1);
         c = std::max(c, std::abs(f(y) - f0));
      }
      sum += c;
   }
   return sum;
}

/// one-loop threshold correction to lambda
double lambda1(const Pt& x, int f) { return 0.5*std::pow(yukawa(x, f)*cosine(x, f), 4)*threshold(x, oneLoop[f]); }

/// interchange of the two Higgs doublets
Pt mirror(const Pt& x)
{
   Pt r = x;
   std::swap(r.vu, r.vd); std::swap(r.yt, r.yb); std::swap(r.u, r.d); std::swap(r.At, r.Ab);
   return r;
}

} // anonymous namespace

VF_SUB("running of the two-loop thresholds", 800000, 20000000)
{
   const Pt x = point(g, 2.5);
   note(g, x);
   const Order& o = orders()[g.below(orders().size())];
   g.note("order", o.name); g.label(o.name);
   const double yf = yukawa(x, o.f), cf = cosine(x, o.f), yk = yukawa(x, o.k), ck = cosine(x, o.k), n = std::pow(yf*cf, 4)*sq(yk);
   // corrections from the top quark and the tau lepton are expressed by the SM couplings
   const bool sm = o.f != 1;
   const auto dy = [&] (const Pt& a) { return o.k == 2 && o.f == 1 ? 0. : threshold(a, o.y); };
   const auto f2 = [&] (const Pt& a) { return 0.5*(sq(ck)*threshold(a, o.two) + (sm ? 4*dy(a)*threshold(a, oneLoop[o.f]) : 0)); };
   const auto scale = [&] (double t) { Pt a = x; a.Q *= std::exp(t); return f2(a); };
   const double dQ = der(scale, 0.02);
   const double h = step(x, o.k), d1 = der([&] (double t) { return lambda1(flow(x, o.k, t), o.f); }, h)/n;
   const double wave = (o.k == 2 ? 4 : 12)*sq(ck)*0.5*threshold(x, oneLoop[o.f]);
   const double dyx = dy(x), R = -nc4[o.f]*4*dyx + wave + o.b2*sq(ck);
   const double S = std::abs(dQ) + std::abs(d1) + std::abs(R) + std::abs(wave) + 48*std::abs(dyx) + (12 + std::abs(o.b2))*sq(ck);
   // error of the numerical derivatives
   const double noise = 4e-12*std::abs(0.5*std::pow(yf*cf, 4)*threshold(x, oneLoop[o.f]))/n/h + 4e-9*std::abs(f2(x));
   double tol = 1e-5*(S + 0.02*std::abs(f2(x))) + noise;
   if (o.co == CO::YT6 && sq(x.mu) > 2*std::min(x.q, x.u)) g.discard();
   if (o.co == CO::YT6) tol += 0.005*S + 3*shifts([&] (const Pt& y) { return der([&] (double t) { Pt a = y; a.Q *= std::exp(t); return f2(a); }, 0.02); }, x);
   g.measure(cat("threshold ", o.name), std::abs(dQ + d1 - R)/tol);
   g.measure(cat("relative tolerance ", o.name), tol/S);
   if (x.At != x.mu*x.vd/x.vu && x.Ab != x.mu*x.vu/x.vd && x.Al != x.mu*x.vu/x.vd && S > 1) g.nontrivial();
   vf::close(g, cat(o.name, ": derivative of the threshold corrections with respect to the scale vs beta function of the quartic coupling"), dQ + d1, R, tol);
}

VF_SUB("exchange of the Higgs doublets", 500000, 12000000)
{
   const Pt x = point(g, 2.5), m = mirror(x);
   note(g, x);
   const double cb2 = sq(cosine(x, 1)), sb2 = 1 - cb2;
   const ThresholdCalculator a(make(x), false), b(make(m), false);
   const auto T = [&] (TC o) { return a.getThresholdCorrection(o, RenSchemes::DRBARPRIME, 1); };
   const auto M = [&] (TC o) { return b.getThresholdCorrection(o, RenSchemes::DRBARPRIME, 1); };
   const auto same = [&] (const char* name, double v, double w, double tol) {
      tol *= 1 + std::abs(v) + std::abs(w);
      g.measure(name, std::abs(v - w)/tol);
      vf::close(g, cat(name, ": bottom vs top with exchanged Higgs doublets"), v, w, tol);
   };
   same("lambda yb^4", T(TC::LAMBDA_YB4), M(TC::LAMBDA_AT), 1e-8);
   same("yb g3^2", T(TC::YB_AS), M(TC::YT_AS), 1e-7);
   same("yb yb^2", T(TC::YB_YB), M(TC::YT_YT), 1e-8);
   same("yt yb^2", T(TC::YT_YB), M(TC::YB_YT), 1e-8);
   same("yb yt^2", T(TC::YB_YT), M(TC::YT_YB), 1e-8);
   same("v yb^2", T(TC::VEV_YB2), M(TC::VEV_YT2), 1e-8);
   same("lambda yb^2 g2^2", T(TC::LAMBDA_YB2_G22), M(TC::LAMBDA_YT2_G22), 1e-8);
   same("lambda yb^4 g3^2", T(TC::LAMBDA_YB4_G32), M(TC::LAMBDA_AT_AS), 1e-5);
   // wave-function renormalisation of the Higgs boson by sbottoms
   same("ytau yb^2", T(TC::YTAU_YB), -cb2*T(TC::VEV_YB2), 1e-8);
   // expressed by the Yukawa couplings of the MSSM and the SM, respectively
   const double l = T(TC::LAMBDA_YB4);
   {
      const double v = T(TC::LAMBDA_YT2_YB4)*sb2, c = 4*T(TC::YB_YT)*l, w = M(TC::LAMBDA_YT4_YB2)*sb2 + c;
      // the constants (without any dependence on the parameters) of the two formulas differ by 2
      const double tol = 2.1*sb2 + 1e-6*(std::abs(v) + std::abs(c) + std::abs(w));
      g.measure("lambda yt^2 yb^4", std::abs(v - w)/tol);
      vf::close(g, "lambda yt^2 yb^4: vs yt^4 yb^2 with exchanged Higgs doublets", v, w, tol);
   }
   if (x.At != x.mu*x.vd/x.vu && x.Ab != x.mu*x.vu/x.vd) g.nontrivial();
}

VF_SUB("running of the two-loop corrections", 800000, 20000000)
{
   const bool strong = g.coin(0.15);
   Pt x = point(g, 2.5);
   if (strong) x.g3 = g.uni(0.5, 1.2);
   note(g, x);
   static const Order as = {"yb^4*g3^2", 3, 1, TC::LAMBDA_YB4_G32, TC::YB_AS, CO::G32YB4, 0};
   const Order& o = strong ? as : orders()[g.below(orders().size())];
   g.note("order", o.name); g.label(o.name);
   const double n = std::pow(yukawa(x, o.f)*cosine(x, o.f), 4)*(strong ? sq(x.g3) : sq(yukawa(x, o.k)))*(sq(x.vu) + sq(x.vd));
   const double m0 = x.yt*x.vu/std::sqrt(2.);
   const auto one = [&] (const Pt& a) {
      const double mt2 = sq(a.yt*a.vu)/2;
      return (sq(a.vu) + sq(a.vd))*(lambda1(a, o.f) + 0.5*std::pow(yukawa(a, o.f)*cosine(a, o.f), 4)*nc4[o.f]*std::log(sq(a.Q)/(o.f == 0 ? mt2 : sq(m0))));
   };
   const auto two = [&] (const Pt& a) { Mh2EFTCalculator e(make(a), false); only(e, o.co); return e.getDeltaMh2EFT2Loop(1, 1)/sq(kappa); };
   const double h = step(x, o.k);
   double A[2], B[2];
   for (int i = 0; i < 2; i++) {
      Pt y = x; if (i) y.Q *= 3;
      A[i] = der([&] (double t) { Pt a = y; a.Q *= std::exp(t); return two(a); }, 0.02)/n;
      B[i] = der([&] (double t) { return one(flow(y, o.k, t)); }, h)/n;
   }
   const double tol = 1e-5*(std::abs(A[0]) + std::abs(A[1]) + std::abs(B[0]) + std::abs(B[1])) + 4e-9*std::abs(two(x))/n + 3e-13*std::abs(one(x))/n/h;
   g.measure(cat("log^2 ", o.name), std::abs(A[1] - A[0] + B[1] - B[0])/tol);
   if (x.At != x.mu*x.vd/x.vu && x.Ab != x.mu*x.vu/x.vd && std::abs(A[1] - A[0]) > 1) g.nontrivial();
   vf::close(g, cat(o.name, ": change of the derivative with respect to the scale between two scales, two-loop vs one-loop correction along the flow"), A[1] - A[0], B[0] - B[1], tol);
   if (o.co == CO::YT6 && sq(x.mu) < 2*std::min(x.q, x.u)) {
      const double t = 0.005*(std::abs(A[0]) + std::abs(B[0])) + 0.5
         + 3*shifts([&] (const Pt& y) { return der([&] (double t) { Pt a = y; a.Q *= std::exp(t); return two(a); }, 0.02)/n; }, x);
      g.measure("yt^6, derivative", std::abs(A[0] + B[0])/t);
      vf::close(g, "yt^6: derivative of the two-loop correction with respect to the scale vs one-loop correction along the flow", A[0], -B[0], t);
   }
}

VF_SUB("running of the one-loop corrections", 800000, 20000000)
{
   Pt x = point(g, 2.5);
   x.g1 = g.uni(0.2, 0.8); x.g2 = g.uni(0.3, 0.9);
   note(g, x); g.note("g1, g2", cat(x.g1, ", ", x.g2));
   const double v2 = sq(x.vu) + sq(x.vd), gg = sq(x.g2) + 0.6*sq(x.g1);
   const auto one = [&] (CO::CouplingOrders c, const Pt& a) { Mh2EFTCalculator e(make(a), false); only(e, c); return e.getDeltaMh2EFT1Loop(1, 1)/kappa; };
   const auto dQ = [&] (CO::CouplingOrders c) { return der([&] (double t) { Pt a = x; a.Q *= std::exp(t); return one(c, a); }, 0.02); };
   const auto check = [&] (const char* name, CO::CouplingOrders c, double expected, double unit) {
      const double v = dQ(c), tol = 1e-7*(unit + std::abs(v) + std::abs(expected)) + 1e-10*std::abs(one(c, x));
      g.measure(name, std::abs(v - expected)/tol);
      vf::close(g, cat(name, ": derivative of the one-loop correction with respect to the scale"), v, expected, tol);
   };
   check("yt^4", CO::YT4, 0, std::pow(x.yt*cosine(x, 0), 4)*v2);
   check("yb^4", CO::YB4, 0, std::pow(x.yb*cosine(x, 1), 4)*v2);
   check("ytau^4", CO::YTAU4, 0, std::pow(x.yl*cosine(x, 2), 4)*v2);
   // tree-level mass (MZ cos(2 beta))^2 along the flow
   for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) {
      const double f = i ? sq(x.g2) : 0.6*sq(x.g1);
      const auto tree = [&] (const Pt& a) { const double u = sq(a.vu), d = sq(a.vd); return 0.25*f*sq(u - d)/(u + d); };
      const double e = -der([&] (double t) { return tree(flow(x, k, t)); }, step(x, k));
      static const CO::CouplingOrders c[3][2] = {{CO::G12YT2, CO::G22YT2}, {CO::G12YB2, CO::G22YB2}, {CO::G12YTAU2, CO::G22YTAU2}};
      static const char* name[3][2] = {{"g1^2 yt^2", "g2^2 yt^2"}, {"g1^2 yb^2", "g2^2 yb^2"}, {"g1^2 ytau^2", "g2^2 ytau^2"}};
      check(name[k][i], c[k][i], e, f*sq(yukawa(x, k))*v2);
   }
   (void)gg;
   g.nontrivial();
}

VF_SUB("decoupling of single sfermions", 300000, 8000000)
{
   // without mixing a sfermion with the mass m^2 + c h^2 contributes
   // 4 N kappa c^2 log(m^2/Q^2) to the quartic coupling
   Pt x = point(g, 3);
   x.g1 = g.uni(0.2, 0.8); x.g2 = g.uni(0.3, 0.9);
   const double tb = x.vu/x.vd;
   x.At = x.mu/tb; x.Ab = x.mu*tb; x.Al = x.mu*tb;
   note(g, x); g.note("g1, g2", cat(x.g1, ", ", x.g2)); g.note("generations 1, 2", std::sqrt(x.q12));
   static const char* const name[] = {"mq3", "mu3", "md3", "ml3", "me3", "generations 1 and 2"};
   const int k = g.below(6);
   Pt y = x;
   double* const m[] = {&y.q, &y.u, &y.d, &y.l, &y.e, &y.q12};
   const double f = std::exp(g.sign()*g.uni(0.02, 1.5));
   *m[k] *= f;
   // limits of equal masses
   for (double a: {y.q, y.u, sq(y.MG)}) for (double b: {y.q, y.u, sq(y.MG)}) if (a != b && std::abs(a/b - 1) < 0.06) g.discard();
   g.note("changed", name[k]); g.note("factor of the squared mass", f); g.label(name[k]);
   const double v2 = sq(x.vu) + sq(x.vd), c2b = (sq(x.vd) - sq(x.vu))/v2;
   struct Field { double N, T3, Q; int yukawa; bool left; }; // charge of the left-handed field
   static const std::vector<Field> fields[5] = {{{3, 0.5, 2./3, 0, true}, {3, -0.5, -1./3, 1, true}}, {{3, 0, 2./3, 0, false}}, {{3, 0, -1./3, 1, false}},
      {{1, 0.5, 0, -1, true}, {1, -0.5, -1, 2, true}}, {{1, 0, -1, 2, false}}};
   // coefficients of (h^2): Yukawa couplings, g1^2, g2^2
   std::array<double, CO::NUMBER_OF_COUPLING_ORDERS> e{}, size{};
   static const CO::CouplingOrders y4[3] = {CO::YT4, CO::YB4, CO::YTAU4}, g1y[3] = {CO::G12YT2, CO::G12YB2, CO::G12YTAU2}, g2y[3] = {CO::G22YT2, CO::G22YB2, CO::G22YTAU2};
   const auto add = [&] (const Field& a, double n) {
      const double cy = n == 1 && a.yukawa >= 0 ? sq(yukawa(x, a.yukawa)*cosine(x, a.yukawa))/2 : 0;
      const double c1 = (a.left ? a.T3 - a.Q : a.Q)*c2b/4*0.6*sq(x.g1), c2 = a.T3*c2b/4*sq(x.g2), F = 4*a.N*n*v2*std::log(f);
      const auto put = [&] (int o, double w) { e[o] += w; size[o] += std::abs(w); };
      if (cy != 0) { put(y4[a.yukawa], F*cy*cy); put(g1y[a.yukawa], F*2*cy*c1); put(g2y[a.yukawa], F*2*cy*c2); }
      put(CO::G14, F*c1*c1); put(CO::G24, F*c2*c2); put(CO::G12G22, F*2*c1*c2);
   };
   for (int i = 0; i < 5; i++) if (k == 5 || k == i) for (const Field& a: fields[i]) add(a, k == 5 ? 2 : 1);
   const Parameters p = make(x), q = make(y);
   for (int o: {CO::G12G22, CO::G12YB2, CO::G14, CO::G24, CO::G22YB2, CO::YB4, CO::G12YT2, CO::G22YT2, CO::YT4, CO::G12YTAU2, CO::G22YTAU2, CO::YTAU4}) {
      Mh2EFTCalculator a(p, false), b(q, false);
      only(a, o); only(b, o);
      const double va = a.getDeltaMh2EFT1Loop(1, 1)/kappa, vb = b.getDeltaMh2EFT1Loop(1, 1)/kappa;
      const double tol = 1e-11*(std::abs(va) + std::abs(vb)) + 1e-10*size[o];
      g.measure(cat("order ", o), std::abs(vb - va - e[o])/tol);
      vf::close(g, cat("order ", o, ": change of the one-loop correction with ", name[k]), vb - va, e[o], tol);
   }
   g.nontrivial();
}

VF_SUB("schemes", 800000, 20000000)
{
   Pt x = point(g, 3);
   x.g3 = 1;
   note(g, x);
   const ThresholdCalculator c(make(x), false);
   const int logs = g.below(2);
   g.note("logarithms", logs);
   using RS = RenSchemes;
   const auto T = [&] (TC o) { return c.getThresholdCorrection(o, RS::TEST, logs); };
   const auto D = [&] (TC o) { return c.getThresholdCorrection(o, RS::DRBARPRIME, logs); };
   const double g1 = T(TC::G3_AS), y1 = T(TC::YT_AS), y2 = T(TC::YT_AS2), l1 = T(TC::LAMBDA_AT), l2 = T(TC::LAMBDA_AT_AS), l3 = T(TC::LAMBDA_AT_AS2);
   const auto same = [&] (const char* name, double v, double w, double size) {
      const double tol = 1e-11*(size + std::abs(v) + std::abs(w));
      g.measure(name, std::abs(v - w)/tol);
      vf::close(g, cat(name, ": DR' vs conversion of the MSbar result"), v, w, tol);
   };
   // SM couplings expressed by those of the MSSM: inversion of
   //   g = G (1 + g1 G^2), y = Y (1 + y1 G^2 + y2 G^4)
   same("g3", D(TC::G3_AS), -g1, 1); same("yt", D(TC::YT_AS), -y1, 1);
   same("yt, two loops", D(TC::YT_AS2), 2*g1*y1 + y1*y1 - y2, std::abs(g1*y1) + y1*y1 + std::abs(y2));
   same("lambda at", D(TC::LAMBDA_AT), l1, 1);
   same("lambda at as", D(TC::LAMBDA_AT_AS), l2 - 4*l1*y1, std::abs(l1*y1) + std::abs(l2));
   same("lambda at as^2", D(TC::LAMBDA_AT_AS2), l3 + l2*(-2*g1 - 4*y1) + l1*(8*g1*y1 + 10*y1*y1 - 4*y2),
        std::abs(l3) + std::abs(l2)*(std::abs(g1) + std::abs(y1)) + std::abs(l1)*(std::abs(g1*y1) + y1*y1 + std::abs(y2)));
   if (std::abs(l1*y1) > 0.1) g.nontrivial();
}

VF_SUB("three-loop correction", 400000, 8000000)
{
   Pt x = point(g, 3);
   x.g3 = g.uni(0.4, 1.3);
   note(g, x); g.note("g3", x.g3);
   const Parameters p = make(x);
   Mh2EFTCalculator e(p, false);
   const ThresholdCalculator c(p, false);
   // logarithms of the EFT: difference of the polynomial for two values of the top mass
   const auto D = [&] (TC o, int l) { return c.getThresholdCorrection(o, RenSchemes::DRBARPRIME, l); };
   const int sm = g.below(2), ms = g.below(2), l3 = g.below(2);
   g.note("flags", cat(sm, " ", ms, " ", l3));
   const double dg = D(TC::G3_AS, ms), dy = D(TC::YT_AS, ms), dy2 = D(TC::YT_AS2, ms), L = sm*2*std::log(p.scale/p.Mt), z3 = 1.2020569031595942854;
   const double v2 = sq(p.vu) + sq(p.vd), pref = std::pow(kappa, 3)*2*std::pow(p.Mt, 4)/v2*std::pow(p.g3, 4);
   const double v = e.getDeltaMh2EFT3Loop(sm, ms, l3)/pref;
   const double w = 736*L*L*L + (160 + 192*dg + 384*dy)*L*L + (-128*z3 - 2056/3. - 64*dg - 512*dy + 72*dy*dy + 48*dy2)*L
      + 64*dy - 84*dy*dy - 24*dy2 + 248.1215180432007 + l3*D(TC::LAMBDA_AT_AS2, ms);
   const double size = std::abs(L*L*L)*736 + (160 + 192*std::abs(dg) + 384*std::abs(dy))*L*L + (900 + 64*std::abs(dg) + 512*std::abs(dy) + 72*dy*dy + 48*std::abs(dy2))*std::abs(L)
      + 100*std::abs(dy) + 84*dy*dy + 24*std::abs(dy2) + 248 + std::abs(D(TC::LAMBDA_AT_AS2, ms));
   g.measure("three loops", std::abs(v - w)/(1e-11*size));
   vf::close(g, "O(at*as^2): three-loop correction vs solution of the renormalisation group equations with the threshold corrections", v, w, 1e-11*size);
   if (L != 0) g.nontrivial();
}

VF_SUB("switches", 150000, 4000000)
{
   Pt x = point(g, 3);
   x.g1 = g.uni(0.2, 0.8); x.g2 = g.uni(0.3, 0.9); x.g3 = g.uni(0.4, 1.3);
   note(g, x);
   const Parameters p = make(x);
   const int sm = g.below(2), ms = g.below(2);
   g.note("logarithms", cat(sm, " ", ms));
   using Values = std::array<double, 2>;
   const auto value = [&] (const std::vector<int>& on) {
      Mh2EFTCalculator e(p, false);
      for (int k = 0; k < CO::NUMBER_OF_COUPLING_ORDERS; k++) e.setCorrectionFlag(static_cast<CO::CouplingOrders>(k), on[k]);
      return Values{e.getDeltaMh2EFT1Loop(sm, ms), e.getDeltaMh2EFT2Loop(sm, ms)};
   };
   // (YTAU2YT4 has no contributions; ONLY_AT_AS belongs to the fixed-order calculation)
   const int N = CO::NUMBER_OF_COUPLING_ORDERS;
   std::vector<int> on(N, 0);
   const Values none = value(on);
   g.require(none[0] == 0 && none[1] == 0, cat("all orders switched off: ", none[0], ", ", none[1]));
   for (int k = 0; k < N; k++) on[k] = k != CO::YTAU2YT4 && k != CO::ONLY_AT_AS && g.coin();
   Values sum{}, size{};
   std::string s;
   for (int k = 0; k < N; k++) if (on[k]) {
      s += cat(k, " ");
      std::vector<int> one(N, 0); one[k] = 1;
      const Values v = value(one);
      const bool onlyTwo = k == CO::G32YB4 || k == CO::G32YT4 || k == CO::YB6 || k == CO::YT6 || k == CO::YTAU6 || k == CO::YTAU2YB4 || k == CO::YTAU4YB2 || k == CO::YT2YB4 || k == CO::YB2YT4;
      g.require(v[onlyTwo ? 0 : 1] == 0, cat("order ", k, " contributes at ", onlyTwo ? "one loop" : "two loops", ": ", v[onlyTwo ? 0 : 1]));
      if (sm && ms) g.require(v[onlyTwo ? 1 : 0] != 0, cat("order ", k, " does not contribute"));
      for (int i = 0; i < 2; i++) { sum[i] += v[i]; size[i] += std::abs(v[i]); }
   }
   g.note("orders", s);
   const Values all = value(on);
   for (int i = 0; i < 2; i++) vf::close(g, cat(i + 1, " loops: selected orders vs sum of the separate orders"), all[i], sum[i], 1e-12*size[i]);
   g.nontrivial();
}
