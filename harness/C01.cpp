// C01: acceptance and rejection of parameter points, the same at every entry point.
#include "point.hpp"
#include "qref.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include <algorithm>
#include <cstring>

using namespace vf;
using pt::Parameters;
using qref::Q;

static Info info(
   "a case is one parameter point (any spectrum pattern, MS from 1 GeV to 1e7 GeV, flavour structure, any subset of optional entries given) with 0 to 2 planted defects: a negative (or negative zero, or barely negative) entry anywhere in one of the five soft-breaking matrices, a negative gluino mass, a zero, negative or not-a-number vacuum expectation value, or a third-generation mixing/D-term that makes a sfermion squared mass cross zero (at relative distances 1e-10..1 on both sides), presented to all four entry points; "
   "non-trivial: at least one defect or boundary was planted",
   {"oracle: documented acceptance rule with the sfermion eigenvalues decided in 113-bit arithmetic; points with an eigenvalue of relative size below 1e-12 are discarded",
    "inputs are finite numbers except the entries that are left open and the vacuum expectation values",
    "a sfermion sector is checked for tachyons only if it is not given completely (documented)"});

enum { Accept, Reject, Unclear };

static int sector(Q a, Q b, Q mf, Q A, Q mut)
{
   const Q x = mf*(A - mut), xmag = mf*(fabsq(A) + fabsq(mut)); // xmag: size of the cancelling terms
   const Q tr = a + b, rt = sqrtq((a - b)*(a - b) + 4*x*x), big = fmaxq(fabsq(tr + rt), fabsq(tr - rt))/2;
   Q lo;
   if (tr > 0) lo = (a*b - x*x)*2/(tr + rt); else lo = (tr - rt)/2;
   if (big == 0) return Unclear;
   if (fabsq(lo) < 1e-12Q*fmaxq(big, fmaxq(fmaxq(fabsq(a), fabsq(b)), xmag))) return Unclear;
   return lo < 0 ? Reject : Accept;
}

static int expected(Parameters p, const double* y) // y: largest singular values
{
   for (auto* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2}) for (int i = 0; i < 9; ++i) if ((*m)(i) < 0) return Reject;
   if (p.MG < 0) return Reject;
   if (!(p.vu > 0) || !(p.vd > 0)) return Reject;
   const Q v2 = Q(p.vu)*p.vu + Q(p.vd)*p.vd;
   const Q mw = std::isnan(p.MW) ? p.g2*sqrtq(v2)/2 : Q(p.MW), mz = std::isnan(p.MZ) ? sqrtq((Q(6)/10*Q(p.g1)*p.g1 + Q(p.g2)*p.g2)*v2)/2 : Q(p.MZ);
   const Q mt = std::isnan(p.Mt) ? Q(y[0])*p.vu/sqrtq(Q(2)) : Q(p.Mt), mb = std::isnan(p.Mb) ? Q(y[1])*p.vd/sqrtq(Q(2)) : Q(p.Mb), ml = std::isnan(p.Mtau) ? Q(y[2])*p.vd/sqrtq(Q(2)) : Q(p.Mtau);
   const Q tb = Q(p.vu)/p.vd, c2b = (Q(p.vd)*p.vd - Q(p.vu)*p.vu)/v2, mz2 = mz*mz, sw2 = mz == 0 ? Q(0) : 1 - mw*mw/mz2;
   const auto given = [] (const Eigen::Vector2d& m, double s2, double th) { return !std::isnan(m(0)) && !std::isnan(m(1)) && (!std::isnan(th) || (!std::isnan(s2) && std::abs(s2) <= 1)); };
   int r = Accept;
   const auto comb = [&] (int s) { if (s == Reject) r = Reject; else if (s == Unclear && r == Accept) r = Unclear; };
   if (!given(p.MSt, p.s2t, p.theta_t)) comb(sector(p.mq2(2,2) + mt*mt + (Q(1)/2 - 2*sw2/3)*mz2*c2b, p.mu2(2,2) + mt*mt + 2*sw2/3*mz2*c2b, mt, p.Au(2,2), p.mu/tb));
   if (!given(p.MSb, p.s2b, p.theta_b)) comb(sector(p.mq2(2,2) + mb*mb - (Q(1)/2 - sw2/3)*mz2*c2b, p.md2(2,2) + mb*mb - sw2/3*mz2*c2b, mb, p.Ad(2,2), p.mu*tb));
   if (!given(p.MStau, p.s2tau, p.theta_tau)) comb(sector(p.ml2(2,2) + ml*ml - (Q(1)/2 - sw2)*mz2*c2b, p.me2(2,2) + ml*ml - sw2*mz2*c2b, ml, p.Ae(2,2), p.mu*tb));
   return r;
}

struct Made { Parameters p; double y[3]; };

static Made gen(Gen& g)
{
   pt::Opt o; o.msmin = 200; o.msmax = 1e5; o.xtmax = 2;
   if (g.coin(0.3)) { o.msmin = 1; o.msmax = 1e7; }
   auto pp = pt::make(g, o); Made r; Parameters& p = r.p; p = pp.p; const double MS = pp.MS;
   g.label(pt::name(pp.pattern));
   for (auto t : {0, 1, 2}) if (g.coin(0.2)) { // masses given
      if (t == 0) p.Mt = g.uni(100, 180); if (t == 1) p.Mb = g.uni(0, 5); if (t == 2) p.Mtau = g.uni(0, 2); }
   if (g.coin(0.2)) p.MW = g.uni(0, 90);
   if (g.coin(0.2)) p.MZ = g.uni(80, 95);
   Eigen::Vector2d* M[3] = {&p.MSt, &p.MSb, &p.MStau}; double* S[3] = {&p.s2t, &p.s2b, &p.s2tau}; double* T[3] = {&p.theta_t, &p.theta_b, &p.theta_tau};
   for (int i = 0; i < 3; ++i) if (g.coin(0.25)) {
      *M[i] << g.uni(0.1, 2)*MS, g.uni(0.1, 2)*MS;
      switch (g.below(5)) {
      case 0: *S[i] = g.uni(-1, 1); break;
      case 1: *T[i] = g.uni(-4, 4); break;
      case 2: *S[i] = g.sign()*g.uni(1, 1.5); break;
      case 3: (*M[i])(g.below(2)) = pt::Parameters().Mt; *T[i] = 0.1; break;
      default: break;
      }
      g.label("sfermion sector given or partly given");
   }
   const int n = g.below(3);
   for (int k = 0; k < n; ++k) {
      g.nontrivial();
      switch (g.below(6)) {
      case 0: { // negative entry
         Eigen::Matrix3d* m[5] = {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2};
         const int i = g.below(5), e = g.below(9);
         double v = 0;
         switch (g.below(6)) { case 0: v = -1e-300; break; case 1: v = -0.0; break; case 2: v = -g.logu(1e-6, 1e6); break; case 3: v = -g.uni(0, 1)*MS*MS; break; case 4: v = 5e-324; break; default: v = g.uni(0, 0.3)*MS*MS; }
         (*m[i])(e) = v; g.label(v < 0 ? "negative soft mass" : "unusual soft mass"); break; }
      case 1: p.MG = g.coin() ? -p.MG : g.pick({-0.0, 0, -1e-300, -1, 1e-300}); g.label("gluino mass"); break;
      case 2: (g.coin() ? p.vu : p.vd) = g.pick({0, -0.0, -1, -246, 1e-5, std::numeric_limits<double>::quiet_NaN(), -1e-300}); g.label("vacuum expectation value"); break;
      default: { // push a sector across zero
         const int s = g.below(3);
         const double tb = p.vu/p.vd, v = std::hypot(p.vu, p.vd);
         double mf = s == 0 ? (std::isnan(p.Mt) ? p.Yu(2,2)*p.vu/std::sqrt(2.) : p.Mt) : s == 1 ? (std::isnan(p.Mb) ? p.Yd(2,2)*p.vd/std::sqrt(2.) : p.Mb) : (std::isnan(p.Mtau) ? p.Ye(2,2)*p.vd/std::sqrt(2.) : p.Mtau);
         const double mw = std::isnan(p.MW) ? p.g2*v/2 : p.MW, mz = std::isnan(p.MZ) ? std::sqrt(0.6*p.g1*p.g1 + p.g2*p.g2)*v/2 : p.MZ;
         const double sw2 = 1 - mw*mw/mz/mz, c2b = (p.vd*p.vd - p.vu*p.vu)/v/v, d = mz*mz*c2b;
         double a, b;
         if (s == 0) { a = p.mq2(2,2) + (0.5 - 2*sw2/3)*d; b = p.mu2(2,2) + 2*sw2/3*d; }
         else if (s == 1) { a = p.mq2(2,2) - (0.5 - sw2/3)*d; b = p.md2(2,2) - sw2/3*d; }
         else { a = p.ml2(2,2) - (0.5 - sw2)*d; b = p.me2(2,2) - sw2*d; }
         a += mf*mf; b += mf*mf;
         const double x = std::sqrt(std::max(0., a*b))*(1 + g.sign()*g.logu(1e-10, 1))*g.sign();
         if (g.coin(0.7)) {
            if (!(mf > 0) || !std::isfinite(x)) break;
            if (s == 0) p.Au(2,2) = x/mf + p.mu/tb; else if (s == 1) p.Ad(2,2) = x/mf + p.mu*tb; else p.Ae(2,2) = x/mf + p.mu*tb;
            g.label("mixing at the boundary");
         } else { // soft masses of the order of the D terms
            const double m = d == 0 ? 1 : std::abs(d)*g.uni(0, 1);
            if (s == 0) p.mu2(2,2) = m; else if (s == 1) p.md2(2,2) = m; else p.ml2(2,2) = m;
            g.label("soft mass of the order of the D-term");
         }
      } }
   }
   r.y[0] = std::abs(p.Yu(2,2)); r.y[1] = std::abs(p.Yd(2,2)); r.y[2] = std::abs(p.Ye(2,2));
   // sign of a Yukawa coupling is a phase convention
   if (g.coin(0.1)) p.Yu(2,2) *= -1;
   return r;
}

static const char* dec(int i) { return i == Accept ? "accepted" : i == Reject ? "rejected" : "unclear"; }

static void noNaN(Gen& g, const Parameters& p)
{
   const auto c = [&](const char* n, double x) { if (std::isnan(x)) g.fail(cat("accepted point contains not-a-number: ", n)); };
   c("MW", p.MW); c("MZ", p.MZ); c("Mt", p.Mt); c("Mb", p.Mb); c("Mtau", p.Mtau); c("MG", p.MG); c("MA", p.MA);
   for (int i = 0; i < 2; ++i) { c("MSt", p.MSt(i)); c("MSb", p.MSb(i)); c("MStau", p.MStau(i)); }
   c("s2t", p.s2t); c("s2b", p.s2b); c("s2tau", p.s2tau); c("theta_t", p.theta_t); c("theta_b", p.theta_b); c("theta_tau", p.theta_tau);
}

VF_SUB("validate", 900000, 12000000)
{
   Made m = gen(g);
   pt::note(g, m.p);
   const int ex = expected(m.p, m.y);
   if (ex == Unclear) g.discard();
   g.note("expected", dec(ex));
   Parameters p = m.p; int got = Accept; std::string msg;
   try { p.validate(false); } catch (const std::exception& e) { got = Reject; msg = e.what(); }
   if (got != ex) g.fail(cat("point is ", dec(got), " but must be ", dec(ex), got == Reject ? ": " + msg : ""));
   g.label(dec(got));
   if (got == Accept) {
      noNaN(g, p);
      // an accepted point stays accepted
      Parameters q = p;
      try { q.validate(false); } catch (const std::exception& e) { g.fail(cat("completed point is rejected: ", e.what())); }
   } else g.require(!msg.empty(), "exception without message");
}

VF_SUB("entry points", 80000, 1000000)
{
   Made m = gen(g);
   pt::note(g, m.p);
   const int ex = expected(m.p, m.y);
   if (ex == Unclear) g.discard();
   g.note("expected", dec(ex));
   const Parameters& p = m.p; const bool verbose = false;
   const auto run = [&](const char* n, const std::function<void()>& f) {
      int got = Accept; std::string msg;
      try { f(); } catch (const std::exception& e) { got = Reject; msg = e.what(); }
      if (got != ex) g.fail(cat("point is ", dec(got), " by ", n, " but must be ", dec(ex), got == Reject ? ": " + msg : "")); };
   std::vector<char> before(sizeof(Parameters)); std::memcpy(before.data(), &m.p, sizeof(Parameters));
   run("HierarchyCalculator", [&] { himalaya::HierarchyCalculator hc(p, verbose); });
   run("Mh2EFTCalculator", [&] { himalaya::mh2_eft::Mh2EFTCalculator c(p, verbose); });
   run("ThresholdCalculator", [&] { himalaya::mh2_eft::ThresholdCalculator c(p, verbose, g.coin()); });
   g.require(std::memcmp(before.data(), &m.p, sizeof(Parameters)) == 0, "an entry point changed the caller's parameters");
}
