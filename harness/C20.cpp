// C20: threshold corrections are continuous across all mass-limit formulas.
//
// Oracle: at an exactly or nearly degenerate spectrum x the true value is
// obtained from evaluations far away from all degeneracies: all masses are
// moved apart along a line through x, and the symmetric averages at 3 and 4
// distances are extrapolated to x.  The difference of the two extrapolations
// bounds the error of the oracle.
#include "vf.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include <algorithm>
#include <array>
#include <functional>

using vf::Gen; using vf::cat;
using namespace himalaya;
using namespace himalaya::mh2_eft;

static vf::Info info(
   "the spectrum contains at least two (nearly) equal masses entering the correction and the stop mixing is not zero",
   {"the oracle is an even polynomial extrapolation of evaluations in which the (nearly) equal masses are 2.5 % to 20 % apart; its own error estimate is added to the tolerance",
    "the limit formulas may be used up to 1 % away from the limit, or replaced by the general formula if both agree within 3 % of the typical size",
    "the lightest stop mass only serves as reference mass of the logarithms and is kept fixed"});

namespace {

double sq(double x) { return x*x; }

enum Mass { Q, U, G, S, D, A, MU, L, E, N1, N2, NMass };
const char* const massName[] = {"mQ3", "mU3", "MG", "msq", "mD3", "MA", "mu", "mL3", "mE3", "M1", "M2"};

struct Spec {
   std::array<double, NMass> m{};  ///< log of squared masses
   double Xt = 0, Xb = 0, Xl = 0, tb = 10, Q = 1000, mst = 1000; ///< absolute
   int smu = 1;
};

Parameters make(const Spec& s)
{
   Parameters p;
   const auto M2 = [&] (int i) { return std::exp(s.m[i]); };
   const auto M = [&] (int i) { return std::exp(0.5*s.m[i]); };
   const double b = std::atan(s.tb), v = 246;
   p.vu = v*std::sin(b); p.vd = v*std::cos(b);
   p.g1 = 0.46; p.g2 = 0.65; p.g3 = 1.05; p.scale = s.Q;
   p.mu = s.smu*M(MU); p.MA = M(A); p.MG = M(G); p.M1 = M(N1); p.M2 = M(N2);
   p.mq2(2,2) = M2(Q); p.mu2(2,2) = M2(U); p.md2(2,2) = M2(D);
   p.ml2(2,2) = M2(L); p.me2(2,2) = M2(E);
   p.Au(2,2) = s.Xt + p.mu/s.tb; p.Ad(2,2) = s.Xb + p.mu*s.tb; p.Ae(2,2) = s.Xl + p.mu*s.tb;
   p.Yu(2,2) = 0.86; p.Yd(2,2) = 0.14; p.Ye(2,2) = 0.1;
   for (int i = 0; i < 2; i++) { p.ml2(i,i) = M2(L); p.me2(i,i) = M2(E); }
   p.MSt << s.mst, 2*s.mst; p.MSb << s.mst, 2*s.mst;
   p.s2t = 0.1; p.s2b = 0.1; p.theta_t = 0.05; p.theta_b = 0.05;
   for (int i = 0; i < 2; i++) p.mq2(i,i) = p.mu2(i,i) = p.md2(i,i) = M2(S);
   p.validate(false);
   // light squarks: average squark mass equal to the given one
   double x = M2(S);
   for (int k = 0; k < 30; k++) {
      for (int i = 0; i < 2; i++) p.mq2(i,i) = p.mu2(i,i) = p.md2(i,i) = x;
      const double r = M2(S)/p.calculateMsq2();
      if (!(std::abs(r - 1) > 1e-15)) break;
      x *= std::pow(r, 1.25);
   }
   return p;
}

using Fn = std::function<double(const Spec&)>;

struct Truth { double value, error, size; };

/// value at s, extrapolated from points at distances h, 2h, 3h, 4h along +-d
Truth extrapolate(const Spec& s, const std::array<double, NMass>& d, double h, const Fn& f)
{
   double a[5], y[5];
   Truth t{0, 0, 0};
   for (int k = 1; k <= 4; k++) {
      double v = 0;
      for (int sg: {-1, 1}) {
         Spec x = s;
         for (int i = 0; i < NMass; i++) x.m[i] += sg*k*h*d[i];
         const double w = f(x);
         v += 0.5*w; t.size = std::max(t.size, std::abs(w));
      }
      a[k] = v; y[k] = sq(k*h);
   }
   const auto lagrange = [&] (int m, int n) {
      double r = 0;
      for (int i = m; i <= n; i++) {
         double l = 1;
         for (int j = m; j <= n; j++) if (j != i) l *= y[j]/(y[j] - y[i]);
         r += l*a[i];
      }
      return r;
   };
   t.value = lagrange(1, 4);
   t.error = std::max(std::abs(t.value - lagrange(1, 3)), 0.5*std::abs(t.value - lagrange(2, 4)));
   return t;
}

/// moves the members of each cluster apart
std::array<double, NMass> apart(Gen& g, const std::array<int, NMass>& cluster)
{
   std::array<double, NMass> d{};
   for (int c = 0; c < NMass; c++) {
      std::vector<int> mem;
      for (int i = 0; i < NMass; i++) if (cluster[i] == c) mem.push_back(i);
      const int n = mem.size();
      if (n < 2) continue;
      for (int i = n - 1; i > 0; i--) std::swap(mem[i], mem[g.below(i + 1)]);
      for (int i = 0; i < n; i++) d[mem[i]] = -1 + 2.*i/(n - 1);
   }
   return d;
}

void note(Gen& g, const Spec& s)
{
   for (int i = 0; i < NMass; i++) g.note(massName[i], std::exp(0.5*s.m[i]));
   g.note("Xt", s.Xt); g.note("Xb", s.Xb); g.note("Xtau", s.Xl); g.note("tb", s.tb); g.note("scale", s.Q); g.note("MSt1", s.mst); g.note("sign(mu)", s.smu);
}

/// masses in the given clusters (-1: own), the values of different clusters
/// well apart
Spec spectrum(Gen& g, std::array<int, NMass>& cluster, const std::vector<int>& relevant)
{
   Spec s;
   const double M = g.coin(0.3) ? 1000 : g.logu(500, 5e4);
   int next = 100;
   for (int& c: cluster) if (c < 0) c = next++;
   std::vector<double> used;
   std::array<bool, NMass> done{};
   for (int i = 0; i < NMass; i++) {
      if (done[i]) continue;
      const bool rel = std::find(relevant.begin(), relevant.end(), i) != relevant.end();
      double f = 1;
      for (int k = 0; k < 40; k++) {
         f = g.logu(0.2, 5);
         bool ok = true;
         if (rel) for (double u: used) if (std::abs(std::log(f/u)) < 0.45) ok = false;
         if (ok) break;
         if (k == 39) g.discard();
      }
      if (rel) used.push_back(f);
      for (int j = i; j < NMass; j++) if (cluster[j] == cluster[i]) { s.m[j] = 2*std::log(f*M); done[j] = true; }
   }
   const double x = g.coin(0.85) ? g.sign()*g.uni(0.1, 2.6) : 0;
   s.Xt = x*std::exp(0.25*(s.m[Q] + s.m[U]));
   s.Xb = g.sign()*g.uni(0.1, 2)*std::exp(0.25*(s.m[Q] + s.m[D]));
   s.Xl = g.sign()*g.uni(0.1, 2)*std::exp(0.25*(s.m[L] + s.m[E]));
   s.tb = g.logu(1.5, 50);
   s.Q = g.coin(0.8) ? M*g.logu(0.3, 3) : M;
   s.mst = M*g.uni(0.5, 1.5);
   s.smu = g.coin() ? 1 : -1;
   return s;
}

const char* const limitName[] = {"GENERAL", "MQ3_EQ_MU3", "MQ3_EQ_M3", "MU3_EQ_M3", "MQ3_EQ_MU3_EQ_M3", "DEGENERATE"};

struct Quantity { std::string name; std::function<double(const ThresholdCalculator&)> f; double scale; bool strong; };

const std::vector<Quantity>& strong()
{
   static const std::vector<Quantity> q = [] {
      std::vector<Quantity> r;
      using TO = ThresholdCouplingOrders;
      const std::vector<std::tuple<TO, const char*, double>> o = {
         std::make_tuple(TO::G3_AS, "g3_as", 1.), std::make_tuple(TO::YT_AS, "yt_as", 1.), std::make_tuple(TO::YT_AS2, "yt_as2", 30.),
         std::make_tuple(TO::LAMBDA_AT, "lambda_at", 10.), std::make_tuple(TO::LAMBDA_AT_AS, "lambda_at_as", 100.),
         std::make_tuple(TO::LAMBDA_AT_AS2, "lambda_at_as2", 1000.)};
      for (auto& e: o)
         for (auto sc: {RenSchemes::TEST, RenSchemes::DRBARPRIME})
            for (int logs: {0, 1}) {
               const auto ord = std::get<0>(e);
               r.push_back({cat(std::get<1>(e), sc == RenSchemes::TEST ? " MSbar" : " DRbar'", logs ? "" : " without logarithms"),
                  [=] (const ThresholdCalculator& t) { return t.getThresholdCorrection(ord, sc, logs); }, std::get<2>(e), true});
            }
      for (int xt: {3, 4}) for (int l: {0, 1}) for (int xl: {0, 1})
         r.push_back({cat("DRbar' to MSbar shift, xtOrder=", xt, " logs=", l, xl), [=] (const ThresholdCalculator& t) { return t.getDRbarPrimeToMSbarShift(xt, l, xl); }, 1000, true});
      for (int n: {4, 5, 6}) for (int l: {0, 1})
         r.push_back({cat("DRbar' to MSbar shift, Xt^", n, " terms, logs=", l), [=] (const ThresholdCalculator& t) { return t.getDRbarPrimeToMSbarXtTerms(t.getLimit(), n, l); }, 1000, true});
      return r;
   }();
   return q;
}

} // anonymous namespace

VF_SUB("limit formulas", 24000, 1000000)
{
   const int lim = 1 + g.below(5);
   std::array<int, NMass> c; c.fill(-1);
   const auto limit = static_cast<Limits>(lim);
   auto from = Limits::GENERAL; // formula the limit is taken of
   std::array<double, NMass> d{};
   switch (limit) {
   case Limits::MQ3_EQ_MU3: c[Q] = c[U] = 0; break;
   case Limits::MQ3_EQ_M3: c[Q] = c[G] = 0; break;
   case Limits::MU3_EQ_M3: c[U] = c[G] = 0; break;
   case Limits::MQ3_EQ_MU3_EQ_M3: c[Q] = c[U] = c[G] = 0; break;
   default: c[Q] = c[U] = c[G] = c[S] = 0; break;
   }
   const Spec s = spectrum(g, c, {Q, U, G, S});
   if (limit == Limits::MQ3_EQ_MU3_EQ_M3 && g.coin(0.7)) {
      switch (g.below(3)) {
      case 0: from = Limits::MQ3_EQ_MU3; d[G] = 1; break;
      case 1: from = Limits::MQ3_EQ_M3; d[U] = 1; break;
      default: from = Limits::MU3_EQ_M3; d[Q] = 1; break;
      }
   } else if (limit == Limits::DEGENERATE && g.coin(0.7)) {
      from = Limits::MQ3_EQ_MU3_EQ_M3; d[S] = 1;
   } else {
      d = apart(g, c);
   }
   note(g, s); g.note("limit", limitName[lim]); g.note("of", limitName[static_cast<int>(from)]);
   const std::string what = cat("formula of ", limitName[lim], " vs limit of ", limitName[static_cast<int>(from)]);
   g.label(what);
   if (s.Xt != 0) g.nontrivial();
   const bool multi = from == Limits::GENERAL && lim >= 4;
   const double h = g.uni(0.055, 0.065)*(!multi ? from == Limits::GENERAL ? 1 : 2 : limit == Limits::DEGENERATE ? 2.7 : 1.8);
   for (const auto& q: strong()) {
      const Fn other = [&] (const Spec& x) { ThresholdCalculator t(make(x), false, true); t.setLimit(from); return q.f(t); };
      ThresholdCalculator t(make(s), false, true);
      t.setLimit(limit);
      g.require(t.getLimit() == limit, "getLimit returns the limit set by setLimit");
      const double v = q.f(t);
      const Truth r = extrapolate(s, d, h, other);
      const double tol = (multi ? 6 : 3)*r.error + (multi ? 2e-3 : 2e-5)*(q.scale + r.size);
      g.measure(what, std::abs(v - r.value)/tol);
      vf::close(g, cat(q.name, ": ", what), v, r.value, tol);
   }
}

VF_SUB("automatic selection", 24000, 1000000)
{
   // partition of the four masses
   std::array<int, NMass> c; c.fill(-1);
   static const int part[][4] = {{0,0,-1,-1},{0,-1,0,-1},{-1,0,0,-1},{0,0,0,-1},{0,0,0,0},{0,-1,-1,0},{-1,0,-1,0},{-1,-1,0,0},{0,0,-1,0},{0,-1,0,0},{-1,0,0,0},{0,0,1,1},{0,1,0,1},{0,1,1,0}};
   const int k = g.coin(0.75) ? g.below(5) : g.below(14);
   for (int i = 0; i < 4; i++) c[i] = part[k][i];
   Spec s = spectrum(g, c, {Q, U, G, S});
   const auto d = apart(g, c);
   // close to the limit
   double dist = 0;
   int mode = g.below(4);
   if (k >= 5 && mode == 0) mode = 1;
   for (int i: {Q, U, G, S}) {
      const double x = mode == 0 ? 0. : mode == 1 ? g.sign()*g.logu(1e-15, 0.015) : g.sign()*g.uni(0, 0.03);
      s.m[i] += x;
      if (c[i] >= 0 && c[i] < 100) dist = std::max(dist, std::abs(x));
   }
   // the average squark mass contains D terms and the bottom mass: exact
   // equality to one of the other masses alone does not occur
   if (k >= 5) for (int i: {Q, U, G}) if (std::abs(s.m[i] - s.m[S]) < 1e-9) s.m[S] += 3e-9;
   note(g, s);
   if (s.Xt != 0) g.nontrivial();
   const ThresholdCalculator a(make(s), false);
   const int lim = static_cast<int>(a.getLimit());
   g.label(cat("selected: ", limitName[lim]));
   std::vector<int> n(5, 0);
   for (int i: {Q, U, G, S}) if (c[i] >= 0 && c[i] < 100) n[c[i]]++;
   const int big = std::max(n[0], n[1]);
   const double h = g.uni(0.055, 0.065)*(big == 2 ? 1 : big == 3 ? 1.8 : 2.7);
   double prop = 0;
   for (int l: {0, 1}) {
      const auto val = [&] (ThresholdCouplingOrders o) { return std::abs(a.getThresholdCorrection(o, RenSchemes::DRBARPRIME, l)); };
      using TO = ThresholdCouplingOrders;
      const double y1 = val(TO::YT_AS), y2 = val(TO::YT_AS2), l1 = val(TO::LAMBDA_AT), l2 = val(TO::LAMBDA_AT_AS), g3 = val(TO::G3_AS);
      prop = std::max(prop, 0.03*(4*l1*(10 + y2) + 12*l1*y1*(1 + y1) + 4*l2*(1 + y1) + (2*g3 + 4*y1)*(100 + l2) + (10 + l1)*(6*y1*y1 + 4*y2)));
   }
   for (const auto& q: strong()) {
      const double v = q.f(a);
      const Fn general = [&] (const Spec& x) { ThresholdCalculator t(make(x), false, true); t.setLimit(Limits::GENERAL); return q.f(t); };
      const Truth r = extrapolate(s, d, h, general);
      double tol = 3*r.error + 0.05*(q.scale + std::abs(r.value));
      // error of the limit: change within 2 % of the masses
      for (int i: {Q, U, G, S}) if (c[i] < 100) for (double e: {-0.04, 0.04}) {
         Spec y = s; y.m[i] += e;
         const Truth w = extrapolate(y, d, h, general);
         tol += 1.5*(std::abs(w.value - r.value)) + w.error;
      }
      // products of the individual corrections, each within 3 % of its typical size
      if (q.name.find("shift") != std::string::npos || q.name.find("at_as2") != std::string::npos) tol += prop;
      g.measure(cat("automatic selection, ", q.name), std::abs(v - r.value)/tol);
      vf::close(g, cat(q.name, ": automatically selected formula (", limitName[lim], ") vs extrapolation from well-separated masses"), v, r.value, tol);
   }
}

VF_SUB("other orders", 24000, 1000000)
{
   using TO = ThresholdCouplingOrders;
   struct Order { TO o; const char* name; std::vector<int> m; bool twoLoop; };
   static const std::vector<Order> orders = {
      {TO::LAMBDA_YB2_G12, "lambda_yb2_g12", {Q, D, U}, false}, {TO::LAMBDA_YB2_G22, "lambda_yb2_g22", {Q, D, U}, false}, {TO::LAMBDA_YB4, "lambda_yb4", {Q, D}, false},
      {TO::LAMBDA_G14, "lambda_g14", {Q, U, D, L, E, A}, false}, {TO::LAMBDA_G24, "lambda_g24", {Q, L, A}, false}, {TO::LAMBDA_G12_G22, "lambda_g12_g22", {Q, L, A}, false},
      {TO::LAMBDA_CHI_G14, "lambda_chi_g14", {MU, N1, N2}, false}, {TO::LAMBDA_CHI_G24, "lambda_chi_g24", {MU, N1, N2}, false}, {TO::LAMBDA_CHI_G12_G22, "lambda_chi_g12_g22", {MU, N1, N2}, false},
      {TO::LAMBDA_YT2_G12, "lambda_yt2_g12", {Q, U}, false}, {TO::LAMBDA_YT2_G22, "lambda_yt2_g22", {Q, U}, false},
      {TO::LAMBDA_YTAU2_G12, "lambda_ytau2_g12", {L, E}, false}, {TO::LAMBDA_YTAU2_G22, "lambda_ytau2_g22", {L, E}, false}, {TO::LAMBDA_YTAU4, "lambda_ytau4", {L, E}, false},
      {TO::G1_G1, "g1_g1", {Q, U, D, L, E, A, MU}, false}, {TO::G2_G2, "g2_g2", {Q, L, A, MU, N2}, false}, {TO::VEV_YT2, "vev_yt2", {Q, U}, false},
      {TO::YT_YB, "yt_yb", {Q, D, U, MU, A}, false}, {TO::YT_YT, "yt_yt", {Q, U, MU, A}, false}, {TO::YTAU_YTAU, "ytau_ytau", {L, E, MU, A}, false},
      {TO::VEV_YB2, "vev_yb2", {Q, D}, false}, {TO::VEV_YTAU2, "vev_ytau2", {L, E}, false}, {TO::YTAU_YB, "ytau_yb", {Q, D}, false},
      {TO::YB_YT, "yb_yt", {Q, D, U, MU, A}, false}, {TO::YB_AS, "yb_as", {Q, D, G}, false}, {TO::YB_YB, "yb_yb", {Q, D, MU, A}, false},
      {TO::LAMBDA_YB4_G32, "lambda_yb4_g32", {Q, D, G}, true}, {TO::LAMBDA_YB6, "lambda_yb6", {Q, D, MU, A}, true}, {TO::LAMBDA_YT6, "lambda_yt6", {Q, U, MU, A}, true},
      {TO::LAMBDA_YTAU6, "lambda_ytau6", {L, E, MU, A}, true}, {TO::LAMBDA_YT2_YB4, "lambda_yt2_yb4", {Q, U, D, MU, A}, true}, {TO::LAMBDA_YT4_YB2, "lambda_yt4_yb2", {Q, U, D, MU, A}, true},
      {TO::LAMBDA_YTAU4_YB2, "lambda_ytau4_yb2", {Q, D, L, E}, true}, {TO::LAMBDA_YTAU2_YB4, "lambda_ytau2_yb4", {Q, D, L, E}, true}};
   const auto& o = orders[g.coin() ? g.below(orders.size()) : orders.size() - 1 - g.below(8)];
   std::array<int, NMass> c; c.fill(-1);
   // one or two clusters
   const int nm = o.m.size();
   std::vector<int> perm = o.m;
   for (int i = nm - 1; i > 0; i--) std::swap(perm[i], perm[g.below(i + 1)]);
   const int big = 2 + g.below(nm - 1);
   for (int i = 0; i < nm; i++) c[perm[i]] = i < big ? 0 : nm - big >= 2 ? 1 : -1;
   if (nm - big >= 2 && g.coin()) for (int i = big; i < nm; i++) c[perm[i]] = -1;
   Spec s = spectrum(g, c, o.m);
   const auto d = apart(g, c);
   const int mode = g.below(3);
   for (int i : o.m) s.m[i] += mode == 0 ? 0. : mode == 1 ? g.sign()*g.logu(1e-15, 0.015) : g.sign()*g.uni(0, 0.03);
   note(g, s); g.note("order", o.name); g.label(o.name); g.nontrivial();
   // loss of digits for squarks of nearly equal mass far below MA
   if (o.twoLoop) for (int i : o.m) if (s.m[A] - s.m[i] > 2*std::log(8.)) g.discard();
   int largest = 0; for (int k : {0, 1}) { int n = 0; for (int i : o.m) n += c[i] == k; largest = std::max(largest, n); }
   const double h = g.uni(0.055, 0.065)*(largest == 2 ? 1 : largest == 3 ? 1.8 : largest == 4 ? 2.2 : 2.7);
   // without logarithms the two-loop corrections are not regular: the logarithms
   // of mQ3 and mu are dropped, those of other mass ratios are kept
   for (auto sc: {RenSchemes::TEST, RenSchemes::DRBARPRIME}) for (int logs: {0, 1}) {
      if (o.twoLoop && !logs) continue;
      const Fn f = [&] (const Spec& x) { return ThresholdCalculator(make(x), false, true).getThresholdCorrection(o.o, sc, logs); };
      const double v = ThresholdCalculator(make(s), false).getThresholdCorrection(o.o, sc, logs);
      const Truth r = extrapolate(s, d, h, f);
      // the vev corrections use the limit of equal masses up to 1 %
      const bool vev = o.o == TO::VEV_YB2 || o.o == TO::VEV_YTAU2 || o.o == TO::VEV_YT2;
      double tol = 3*r.error + (vev ? 0.03*std::abs(r.value) : 0.) + (o.twoLoop ? 1e-2 : 1e-5)*(1 + std::abs(r.value));
      if (o.twoLoop) for (int i : o.m) if (c[i] == 0 || c[i] == 1) for (double e: {-0.06, 0.06}) {
         Spec y = s; y.m[i] += e;
         const Truth w = extrapolate(y, d, h, f);
         tol += 2*std::abs(w.value - r.value) + w.error;
      }
      g.measure(cat("other orders, ", o.name), std::abs(v - r.value)/tol);
      vf::close(g, cat(o.name, sc == RenSchemes::TEST ? " MSbar" : " DRbar'", logs ? "" : " without logarithms", ": close masses vs extrapolation from well-separated masses"), v, r.value, tol);
   }
}

VF_SUB("next to the limits", 120000, 5000000)
{
   // two masses close to each other, but outside of the documented range of the
   // limits of equal masses (1 %)
   using TO = ThresholdCouplingOrders;
   struct Order { TO o; const char* name; int a, b; double range; };
   // range: width of the limit in the squared masses
   static const std::vector<Order> orders = {
      {TO::VEV_YT2, "vev_yt2", Q, U, 0.0205}, {TO::VEV_YB2, "vev_yb2", Q, D, 0.0105}, {TO::VEV_YTAU2, "vev_ytau2", L, E, 0.0105}, {TO::YTAU_YB, "ytau_yb", Q, D, 0.0105},
      {TO::LAMBDA_YB4, "lambda_yb4", Q, D, 0}, {TO::LAMBDA_YTAU4, "lambda_ytau4", L, E, 0}, {TO::YB_AS, "yb_as", Q, G, 0}, {TO::YB_AS, "yb_as", D, G, 0},
      {TO::YT_YT, "yt_yt", Q, MU, 0}, {TO::YB_YB, "yb_yb", D, MU, 0}, {TO::YTAU_YTAU, "ytau_ytau", L, E, 0}, {TO::YT_YB, "yt_yb", D, MU, 0},
      {TO::LAMBDA_YT2_G22, "lambda_yt2_g22", Q, U, 0}, {TO::LAMBDA_YB2_G12, "lambda_yb2_g12", Q, D, 0}, {TO::LAMBDA_YTAU2_G22, "lambda_ytau2_g22", L, E, 0},
      {TO::LAMBDA_CHI_G14, "lambda_chi_g14", N1, MU, 0}, {TO::LAMBDA_CHI_G24, "lambda_chi_g24", N2, MU, 0}, {TO::LAMBDA_CHI_G12_G22, "lambda_chi_g12_g22", N1, MU, 0},
      {TO::LAMBDA_CHI_G12_G22, "lambda_chi_g12_g22", N2, MU, 0}, {TO::LAMBDA_CHI_G12_G22, "lambda_chi_g12_g22", N1, N2, 0}};
   const auto& o = orders[g.coin(0.4) ? g.below(4) : g.below(orders.size())];
   std::array<int, NMass> c; c.fill(-1);
   c[o.a] = c[o.b] = 0;
   Spec s = spectrum(g, c, o.a == L ? std::vector<int>{L, E, MU, A} : o.a >= N1 ? std::vector<int>{N1, N2, MU} : std::vector<int>{Q, U, D, G, MU});
   const double delta = g.sign()*g.logu(o.range > 0 ? o.range : 1e-8, 0.2);
   s.m[o.b] += delta;
   note(g, s); g.note("order", o.name); g.note("logarithm of the ratio of the squared masses", delta); g.label(o.name); g.nontrivial();
   const double nodes = g.uni(0.11, 0.14);
   for (auto sc: {RenSchemes::TEST, RenSchemes::DRBARPRIME}) {
      const Fn f = [&] (const Spec& x) { return ThresholdCalculator(make(x), false, true).getThresholdCorrection(o.o, sc, 1); };
      const double v = f(s);
      // polynomial through values at masses at least 5 % apart
      Spec e = s; e.m[o.b] -= delta;
      double x[10], y[10], size = 0;
      for (int k = 0; k < 10; k++) { x[k] = (k < 5 ? k - 5 : k - 4)*nodes; Spec t = e; t.m[o.b] += x[k]; y[k] = f(t); size = std::max(size, std::abs(y[k])); }
      const auto lagrange = [&] (int m, int n) {
         double r = 0;
         for (int i = m; i <= n; i++) { double l = 1; for (int j = m; j <= n; j++) if (j != i) l *= (delta - x[j])/(x[i] - x[j]); r += l*y[i]; }
         return r;
      };
      const double r = lagrange(0, 9), err = std::abs(r - lagrange(1, 8));
      const double tol = 3*err + 1e-7*(size + std::abs(v)) + 1e-10;
      g.measure(cat("next to the limits, ", o.name), std::abs(v - r)/tol);
      vf::close(g, cat(o.name, sc == RenSchemes::TEST ? " MSbar" : " DRbar'", ": two close masses vs interpolation from well-separated masses"), v, r, tol);
   }
}

VF_SUB("thresholds", 12000, 500000)
{
   using TO = ThresholdCouplingOrders;
   struct Order { TO o; const char* name; std::vector<int> m; };
   static const std::vector<Order> orders = {
      {TO::LAMBDA_YB6, "lambda_yb6", {Q, D}}, {TO::LAMBDA_YT6, "lambda_yt6", {Q, U}}, {TO::LAMBDA_YTAU6, "lambda_ytau6", {L, E}},
      {TO::LAMBDA_YT2_YB4, "lambda_yt2_yb4", {Q, U, D}}, {TO::LAMBDA_YT4_YB2, "lambda_yt4_yb2", {Q, U, D}}};
   const auto& o = orders[g.below(orders.size())];
   std::array<int, NMass> c; c.fill(-1);
   std::vector<int> rel = o.m; rel.push_back(MU);
   Spec s = spectrum(g, c, rel);
   const int a = o.m[g.below(o.m.size())], b = o.m[g.below(o.m.size())];
   const double ma = std::exp(0.5*s.m[a]), mb = std::exp(0.5*s.m[b]);
   const double ds = g.coin(0.4) ? 0. : g.sign()*g.logu(1e-15, 3e-3);
   s.m[A] = 2*std::log(a != b && g.coin() ? std::abs(ma - mb) : ma + mb) + ds;
   note(g, s); g.note("order", o.name); g.note("distance", ds); g.label(o.name); g.nontrivial();
   std::array<double, NMass> d{}; d[A] = 1;
   const auto sc = g.coin() ? RenSchemes::TEST : RenSchemes::DRBARPRIME;
   const Fn f = [&] (const Spec& x) { return ThresholdCalculator(make(x), false, true).getThresholdCorrection(o.o, sc, 1); };
   const double v = f(s);
   const Truth r = extrapolate(s, d, g.uni(0.018, 0.022), f);
   const double tol = 5*r.error + 1e-2*(1 + r.size);
   g.measure(cat("thresholds, ", o.name), std::abs(v - r.value)/tol);
   vf::close(g, cat(o.name, ": MA near the sum or difference of two squark masses vs extrapolation"), v, r.value, tol);
}

VF_SUB("mixing orders and omitted logarithms", 20000, 800000)
{
   std::array<int, NMass> c; c.fill(-1);
   const int lim = g.below(6);
   switch (static_cast<Limits>(lim)) {
   case Limits::MQ3_EQ_MU3: c[Q] = c[U] = 0; break;
   case Limits::MQ3_EQ_M3: c[Q] = c[G] = 0; break;
   case Limits::MU3_EQ_M3: c[U] = c[G] = 0; break;
   case Limits::MQ3_EQ_MU3_EQ_M3: c[Q] = c[U] = c[G] = 0; break;
   case Limits::DEGENERATE: c[Q] = c[U] = c[G] = c[S] = 0; break;
   default: break;
   }
   const Spec s = spectrum(g, c, {Q, U, G, S});
   note(g, s); g.note("limit", limitName[lim]);
   const auto calc = [&] (const Spec& x) { ThresholdCalculator t(make(x), false, true); t.setLimit(static_cast<Limits>(lim)); return t; };

   // logarithms omitted: scale equal to the lightest stop mass
   {
      Spec y = s; y.Q = y.mst;
      const auto a = calc(s), b = calc(y);
      for (auto o: {ThresholdCouplingOrders::G3_AS, ThresholdCouplingOrders::YT_AS, ThresholdCouplingOrders::YT_AS2, ThresholdCouplingOrders::LAMBDA_AT,
                    ThresholdCouplingOrders::LAMBDA_AT_AS, ThresholdCouplingOrders::LAMBDA_AT_AS2})
         for (auto sc: {RenSchemes::TEST, RenSchemes::DRBARPRIME}) {
            const double v0 = a.getThresholdCorrection(o, sc, 0), v1 = b.getThresholdCorrection(o, sc, 1);
            vf::close(g, cat("correction ", static_cast<int>(o), ": omitted logarithms vs scale = MSt(0)"), v0, v1, 1e-7*(1 + std::abs(v0)));
         }
      for (int xt: {2, 3, 4, 5}) {
         const double v0 = a.getDRbarPrimeToMSbarShift(xt, 0, 0), v1 = b.getDRbarPrimeToMSbarShift(xt, 1, 1);
         vf::close(g, cat("DRbar' to MSbar shift, xtOrder=", xt, ": omitted logarithms vs scale = MSt(0)"), v0, v1, 1e-6*(10 + std::abs(v0)));
      }
   }

   // coefficients of the powers of Xt
   g.nontrivial();
   const int logs = g.below(2);
   constexpr int N = 9;
   const double unit = 0.5*std::exp(0.25*(s.m[Q] + s.m[U]));
   using Poly = std::array<double, N>;
   const auto coefficients = [&] (const Fn& f) {
      // divided differences at Xt = (k - 4)*unit, converted to powers
      Poly d{}, r{};
      for (int k = 0; k < N; k++) { Spec y = s; y.Xt = (k - 4)*unit; d[k] = f(y); }
      for (int j = 1; j < N; j++) for (int k = N - 1; k >= j; k--) d[k] = (d[k] - d[k-1])/j;
      for (int j = N - 1; j >= 0; j--) {
         for (int k = N - 1; k >= 1; k--) r[k] = r[k-1] - (j - 4)*r[k];
         r[0] = d[j] - (j - 4)*r[0];
      }
      return r;
   };
   const auto size = [] (const Poly& a) { double m = 0; for (int k = 0; k < N; k++) m = std::max(m, std::abs(a[k])*std::pow(4, k)); return m; };
   const auto compare = [&] (const std::string& what, const Poly& a, const Poly& b, int maxdeg, double scale) {
      for (int k = 0; k < N; k++) {
         const double e = k <= maxdeg ? b[k] : 0;
         const double tol = 1e-8*scale;
         g.measure(what, std::abs(a[k] - e)/tol);
         vf::close(g, cat(what, ": coefficient of Xt^", k), a[k], e, tol);
      }
   };
   Poly full{}, l3[7];
   for (int n = 3; n <= 7; n++) {
      const Poly p = coefficients([&] (const Spec& x) { auto t = calc(x); if (n < 7) t.setXtOrderOfDeltaLambdaAtAs2(n); return t.getThresholdCorrection(ThresholdCouplingOrders::LAMBDA_AT_AS2, RenSchemes::TEST, logs); });
      if (n < 7) l3[n] = p; else full = p;
   }
   const double sl = size(full) + 1;
   for (int n = 3; n < 7; n++) compare(cat("lambda_at_as2 up to Xt^", n), l3[n], full, n, sl);
   const Poly s3 = coefficients([&] (const Spec& x) { return calc(x).getDRbarPrimeToMSbarShift(3, logs, logs); });
   const Poly s4 = coefficients([&] (const Spec& x) { return calc(x).getDRbarPrimeToMSbarShift(4, logs, logs); });
   const double ss = size(s4) + 1;
   compare("shift up to Xt^3", s3, s4, 3, ss);
   for (int k = 5; k < N; k++) vf::close(g, cat("shift up to Xt^4: coefficient of Xt^", k), s4[k], 0, 1e-8*ss);
   for (int n: {4, 5, 6}) {
      const Poly x = coefficients([&] (const Spec& y) { const auto t = calc(y); return t.getDRbarPrimeToMSbarXtTerms(t.getLimit(), n, logs); });
      for (int k = 0; k < N; k++) if (k != n) vf::close(g, cat("Xt^", n, " terms of the shift: coefficient of Xt^", k), x[k], 0, 1e-8*ss);
      if (n == 4) vf::close(g, "Xt^4 terms of the shift = difference of the shifts", s4[4] - s3[4], -x[4], 1e-8*ss);
   }
}
