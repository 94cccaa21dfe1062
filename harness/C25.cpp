// Arbitrary input: nothing crashes, hangs, executes undefined behaviour or
// reads memory that was never written. Runs under the address and undefined
// behaviour sanitizers; every call is made twice on a stack filled with two
// different patterns, so results that depend on uninitialised stack memory
// differ.
#include "queries.hpp"
#include "ho.hpp"
#include "himalaya/misc/Li2.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include <cfloat>
#include <climits>
#include <complex>

using namespace himalaya;
using vf::Gen;
using qu::Answer;
using qu::Query;
using qu::put;

static vf::Info info("the arguments contain at least one entry outside the region a physical point can have (zero, negative, tiny, huge, infinite or not a number)",
   {"uninitialised memory is observed through results that change with the previous contents of the stack", "switches documented as 0 or 1 are given small integers only; hierarchies, orders, loops, schemes and limits any integer"});

namespace {
const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

__attribute__((noinline)) void fillStack(unsigned char c)
{
   volatile unsigned char b[100000];
   std::memset(const_cast<unsigned char*>(b), c, sizeof b);
   asm volatile("" : : "r"(b) : "memory");
}

bool wild = false; ///< something unphysical was drawn

double anyDouble(Gen& g, double x)
{
   switch (g.below(9)) {
   case 0: return g.pick({0., -0., 1., -1.});
   case 1: return g.pick({inf, -inf, nan_});
   case 2: return g.pick({5e-324, 1e-320, -1e-310, DBL_MIN, DBL_EPSILON, -DBL_MIN});
   case 3: return g.pick({DBL_MAX, -DBL_MAX, 1e300, -1e300, 1e200, 1e155, -1e155, 1e100});
   case 4: return -x;
   case 5: return x*g.logu(1e-12, 1e12);
   case 6: return g.sign()*g.logu(1e-300, 1e300);
   case 7: return std::nextafter(x, g.coin() ? inf : -inf);
   default: { const std::uint64_t b = g.bits(); double d; std::memcpy(&d, &b, sizeof d); return d; }
   }
}

/// an arbitrary double; x: the physical value it replaces
double strange(Gen& g, double x = 1)
{
   const double r = anyDouble(g, x);
   if (!(r > 1e-3 && r < 1e8)) wild = true;
   return r;
}

int strangeInt(Gen& g, int lo, int hi)
{
   switch (g.below(6)) {
   case 0: return static_cast<int>(g.pick({-1, 0, 1, 2, 3, 4, 5, 14, 15, 100}));
   case 1: return g.coin() ? INT_MAX : INT_MIN;
   case 2: return hi + 1 + g.below(50);
   case 3: return lo - 1 - g.below(50);
   default: return g.range(lo, hi);
   }
}

/// a switch: documented as 0 or 1
int flag(Gen& g) { return g.coin(0.3) ? g.range(-3, 5) : g.below(2); }

const char* const scalarNames[] = {"scale", "mu", "g1", "g2", "g3", "vd", "vu", "M1", "M2", "MG", "MW", "MZ", "Mt", "Mb", "Mtau", "MA", "s2t", "s2b", "s2tau", "theta_t", "theta_b", "theta_tau"};
double& scalar(Parameters& p, int i)
{
   double* const s[] = {&p.scale, &p.mu, &p.g1, &p.g2, &p.g3, &p.vd, &p.vu, &p.M1, &p.M2, &p.MG, &p.MW, &p.MZ, &p.Mt, &p.Mb, &p.Mtau, &p.MA, &p.s2t, &p.s2b, &p.s2tau, &p.theta_t, &p.theta_b, &p.theta_tau};
   return *s[i];
}
const char* const matrixNames[] = {"mq2", "md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye"};
Eigen::Matrix3d& matrix(Parameters& p, int i)
{
   Eigen::Matrix3d* const m[] = {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2, &p.Au, &p.Ad, &p.Ae, &p.Yu, &p.Yd, &p.Ye};
   return *m[i];
}
const char* const pairNames[] = {"MSt", "MSb", "MStau"};

/// replaces n entries of p
void disturb(Gen& g, Parameters& p, int n)
{
   for (int k = 0; k < n; ++k) {
      switch (g.below(3)) {
      case 0: { const int i = g.below(22); double& d = scalar(p, i); d = strange(g, std::isfinite(d) ? d : 100); g.note(scalarNames[i], d); break; }
      case 1: { const int i = g.below(11), a = g.coin(0.7) ? 2 : g.below(3), b = g.coin(0.8) ? a : g.below(3); double& d = matrix(p, i)(a, b); d = strange(g, d != 0 ? d : 1e6); g.note(vf::cat(matrixNames[i], "(", a, ",", b, ")"), d); break; }
      default: { const int i = g.below(3), j = g.below(2); auto& v = i == 0 ? p.MSt : i == 1 ? p.MSb : p.MStau; v(j) = strange(g, std::isfinite(v(j)) ? v(j) : 1000); g.note(vf::cat(pairNames[i], "(", j, ")"), v(j)); }
      }
   }
   if (g.coin(0.1)) { p.massLimit3LThreshold = strangeInt(g, 0, 5); g.note("massLimit3LThreshold", p.massLimit3LThreshold); }
}

/// runs f twice on differently filled stacks; exceptions other than standard ones fail
std::string texts[2]; int turn = 0;
std::string lineDifference()
{
   std::istringstream a(texts[0]), b(texts[1]); std::string l, m;
   while (std::getline(a, l) && std::getline(b, m)) if (l != m) return vf::cat("; text \"", l, "\" / \"", m, "\"");
   return "";
}

template <class F> void twice(Gen& g, const char* what, F f)
{
   Answer r[2];
   texts[0] = texts[1] = "";
   for (int k = 0; k < 2; ++k) {
      turn = k; std::memset(&r[k], 0, sizeof r[k]);
      fillStack(k ? 0xff : 0x00);
      try { qu::Silence s; f(r[k]); r[k].ok = 1; }
      catch (const std::exception& e) { r[k].ok = 0; r[k].n = 0; std::strncpy(r[k].what, e.what(), sizeof r[k].what - 1); }
      catch (const vf::Fail&) { throw; }
      catch (...) { g.fail(vf::cat(what, ": exception not derived from std::exception")); }
   }
   g.label(vf::cat(what, r[0].ok ? ": returns" : ": throws"));
   const std::string d = qu::difference(r[0], r[1]);
   g.require(d.empty(), vf::cat(what, ": the result depends on uninitialised memory: ", d, lineDifference()));
}

const char* const kindNames[] = {"HierarchyCalculator", "Mh2EFTCalculator", "ThresholdCalculator", "MSSM_mass_eigenstates"};

Answer answer(const Parameters& p, const qu::State& s, const Query& q)
{
   Answer r; std::memset(&r, 0, sizeof r);
   switch (q.kind) {
   case qu::kHC: { qu::HC o(p, false); ask(o, q, r); break; }
   case qu::kEFT: { qu::EFT o(p, false); apply(o, s); ask(o, q, r); break; }
   case qu::kTC: { qu::TC o(p, false); apply(o, s); ask(o, q, r); break; }
   default: { qu::FO o = qu::makeFO(p, s); apply(o, s); ask(o, q, r); }
   }
   return r;
}

/// a point with k strange entries; k = 0: all entries of one sort
Parameters strangePoint(Gen& g, pt::Point& pt)
{
   pt = qu::point(g);
   Parameters& p = pt.p;
   if (g.coin(0.3)) { try { qu::Silence s; p.validate(false); } catch (const std::exception&) {} }
   switch (g.below(8)) {
   case 0: { // everything the same, or everything strange
      const bool same = g.coin(); const double v = strange(g);
      for (int i = 0; i < 22; ++i) scalar(p, i) = same ? v : strange(g, scalar(p, i));
      for (int i = 0; i < 11; ++i) for (int j = 0; j < 9; ++j) matrix(p, i)(j/3, j%3) = same ? v : strange(g, matrix(p, i)(j/3, j%3));
      for (int j = 0; j < 2; ++j) { p.MSt(j) = same ? v : strange(g, 1e3); p.MSb(j) = same ? v : strange(g, 1e3); p.MStau(j) = same ? v : strange(g, 1e3); }
      g.note("all entries", same ? vf::cat("equal ", v) : std::string("arbitrary"));
      break; }
   case 1: p = Parameters(); disturb(g, p, 1 + g.below(12)); break;
   case 2: { // overall units
      const double f = g.logu(1e-150, 1e150), f2 = f*f; g.note("units", f); if (f > 1e4 || f < 1e-4) wild = true;
      for (int i : {0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}) scalar(p, i) *= f;
      for (int i = 0; i < 5; ++i) matrix(p, i) *= f2;
      for (int i = 5; i < 8; ++i) matrix(p, i) *= f;
      p.MSt *= f; p.MSb *= f; p.MStau *= f;
      break; }
   default: disturb(g, p, 1 + g.below(4));
   }
   return p;
}
} // namespace

VF_SUB("calculators", 24000, 1200000)
{
   wild = false; pt::Point pt; const Parameters p = strangePoint(g, pt);
   const int kind = g.below(4);
   Query q = qu::randomQuery(g, kind, pt);
   if (kind != qu::kHC && g.coin(0.3)) q.x = strange(g, 1e4);
   qu::State s;
   for (int k = g.below(3); k > 0; --k) qu::randomSetting(g, kind, s);
   if (kind == qu::kHC && g.coin(0.2)) for (double& m : q.m) m = strange(g, 1e6);
   if (g.coin(0.15)) {
      if (kind == qu::kHC) { q.h = strangeInt(g, 0, 13); q.a = flag(g); q.b = flag(g); q.c = flag(g); q.mdr = strangeInt(g, 0, 3); }
      if (kind == qu::kEFT) { q.a = flag(g); q.b = flag(g); q.c = flag(g); q.x = strange(g, q.x); q.m[0] = strange(g, q.m[0]); q.m[1] = strange(g, q.m[1]); }
      if (kind == qu::kTC) { q.h = strangeInt(g, 0, 44); q.mdr = strangeInt(g, 0, 3); q.a = flag(g); q.b = strangeInt(g, 0, 6); q.c = flag(g); q.d = strangeInt(g, 0, 5); s.limit = g.coin() ? -1 : std::abs(strangeInt(g, 0, 5) % 1000); }
      if (kind == qu::kFO) { q.x = strange(g, 1e4); s.maxit = g.coin(0.2) ? std::min(strangeInt(g, 0, 100), 1000) : g.range(0, 300); s.goal = strange(g, 1e-5); s.mom = g.below(3); }
      g.label("strange arguments");
   }
   g.note("query", qu::describe(q)); if (wild) g.nontrivial();
   if (q.kind == qu::kFO) { g.note("momentum", q.x); if (s.mom >= 0) g.note("iteration", vf::cat(s.mom, " goal=", s.goal, " max=", s.maxit)); }
   twice(g, kindNames[kind], [&](Answer& r) { r = answer(p, s, q); });
}

VF_SUB("result object and text of arbitrary points", 8000, 400000)
{
   wild = false; pt::Point pt; const Parameters p = strangePoint(g, pt);
   const bool ab = g.coin(0.3); const int op = g.below(5);
   if (wild) g.nontrivial(); g.note("op", op);
   const auto text = [] (Answer& r, const std::string& s) { texts[turn] = s; double h = 0; for (char ch : s) h = std::fmod(h*31 + (unsigned char)ch, 1e12); put(r, h); };
   twice(g, "point", [&](Answer& r) {
      std::ostringstream o;
      switch (op) {
      case 0: o << p; text(r, o.str()); put(r, p.calculateMsq2()); break;
      case 1: { Parameters c = p; c.validate(true); o << c; text(r, o.str()); put(r, c.calculateMsq2()); break; }
      case 2: { qu::HC hc(p, true); const auto h = hc.calculateDMh3L(ab); o << h; text(r, o.str()); for (const auto& v : res::dump(h)) put(r, v.v); break; }
      case 3: { mh2_fo::MSSM_spectrum s(p); s.calculate_spectrum(); o << s; text(r, o.str()); break; }
      default: { mh2_fo::MSSM_mass_eigenstates f(p, ab); o << f; text(r, o.str()); put(r, f.delta_mh2_1loop(1e4)); put(r, f.delta_mh2_2loop()); }
      }
   });
}

VF_SUB("result object, arbitrary calls", 10000, 400000)
{
   HierarchyObject o(g.coin()); g.nontrivial();
   for (int k = 1 + g.below(8); k > 0; --k) {
      const int op = g.below(22), l = strangeInt(g, 0, 3); const double x = strange(g), y = strange(g);
      Eigen::Matrix2d m; m << x, y, strange(g), strange(g);
      try {
         switch (op) {
         case 0: o.setSuitableHierarchy(l); break;
         case 1: o.setAbsDiff2L(x); break;
         case 2: o.setRelDiff2L(x); break;
         case 3: o.setDMhExpUncertainty(l, x); break;
         case 4: o.setDMh(l, m); break;
         case 5: o.setDMh2(l, x); break;
         case 6: o.setDMhDRbarPrimeToMDRbarPrimeShift(m); break;
         case 7: o.setDMhDRbarPrimeToH3mShift(m); break;
         case 8: { Eigen::Vector2d v(x, y); o.setMDRMasses(v); break; }
         case 9: o.setMDRFlag(l); break;
         case 10: o.setRenormalizationScheme(strangeInt(g, 0, 4)); break;
         case 11: o.setDLambda(l, x); break;
         case 12: o.setDLambdaH3m(x); break;
         case 13: o.setDLambdaDRbarPrimeToMSbarShift(l, x); break;
         case 14: o.setDLambdaEFT(x); break;
         case 15: o.setDLambdaXtUncertainty(x); break;
         case 16: o.setDMh2EFT(l, x); break;
         case 17: o.setDMh2FO(l, x); break;
         case 18: o.setDMh2FOAt(l, x); break;
         case 19: o.getH3mHierarchyNotation(l); break;
         case 20: { const int n = g.below(4); volatile double s = n == 0 ? o.getDMh2(l) : n == 1 ? o.getDLambda(l) : n == 2 ? o.getDMhExpUncertainty(l) : o.getDMh2EFTAt(l); (void)s; break; }
         default: { std::ostringstream s; s << o; }
         }
      } catch (const std::exception&) {}
      catch (...) { g.fail("exception not derived from std::exception"); }
   }
   for (int l = 0; l < 4; ++l) { o.getDMh(l); try { o.getDLambdaUncertainty(l); } catch (const std::exception&) {} }
}

namespace {
template <class F> void numbers(Gen& g, const char* name, F f)
{
   g.note("function", name);
   twice(g, "function", [&](Answer& r) { f(r); });
}
}

VF_SUB("functions of numbers", 300000, 20000000)
{
   wild = false; double x[20];
   const bool common = g.coin(0.3); const double c = strange(g);
   for (int i = 0; i < 6; ++i) { x[i] = common && g.coin(0.6) ? c : g.coin(0.3) ? g.pick({0, 1, -1, 4, 100, 1e4, 0.5, 2}) : strange(g); g.note(vf::cat("x", i), x[i]); }
   if (wild) g.nontrivial();
   using namespace mh2_eft::threshold_loop_functions;
   switch (g.below(9)) {
   case 0: numbers(g, "dilog, clausen_2", [&](Answer& r) { put(r, dilog(x[0])); put(r, clausen_2(x[1])); const auto z = dilog(std::complex<double>(x[2], x[3])); put(r, z.real()); put(r, z.imag()); }); break;
   case 1: numbers(g, "a0, b0, b0xx, d1_b0", [&](Answer& r) { put(r, mh2_fo::a0(x[0], x[1])); put(r, mh2_fo::b0(x[0], x[1], x[2], x[3])); put(r, mh2_fo::b0xx(x[0], x[1], x[2])); put(r, mh2_fo::d1_b0(x[0], x[1])); }); break;
   case 2: numbers(g, "F1..F9, f, g", [&](Answer& r) { put(r, F1(x[0])); put(r, F2(x[0])); put(r, F3(x[0])); put(r, F4(x[0])); put(r, F5(x[0])); put(r, F6(x[0])); put(r, F7(x[0])); put(r, F8(x[0], x[1])); put(r, F9(x[0], x[1])); put(r, f(x[0])); put(r, mh2_eft::threshold_loop_functions::g(x[0])); }); break;
   case 3: numbers(g, "f1..f8", [&](Answer& r) { put(r, f1(x[0])); put(r, f2(x[0])); put(r, f3(x[0])); put(r, f4(x[0])); put(r, f5(x[0], x[1])); put(r, f6(x[0], x[1])); put(r, f7(x[0], x[1])); put(r, f8(x[0], x[1])); }); break;
   case 4: numbers(g, "delta_xyz, phi_xyz", [&](Answer& r) { put(r, delta_xyz(x[0], x[1], x[2])); put(r, phi_xyz(x[0], x[1], x[2])); }); break;
   case 5: { // linear algebra, real
      Eigen::Matrix2d m; m << x[0], x[1], x[1], x[2];
      Eigen::Matrix2d n; n << x[3], x[4], x[5], x[0];
      Eigen::Matrix4d a; for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) a(i,j) = a(j,i) = x[(i*j + i + j) % 6];
      numbers(g, "fs_diagonalize_hermitian, fs_diagonalize_symmetric, fs_svd", [&](Answer& r) {
         Eigen::Array<double, 2, 1> w, s; Eigen::Matrix2d z, vv; Eigen::Matrix2cd u, v; Eigen::Array<double, 4, 1> w4; Eigen::Matrix4cd z4;
         w.setZero(); s.setZero(); z.setZero(); vv.setZero(); u.setZero(); v.setZero(); w4.setZero(); z4.setZero();
         fs_diagonalize_hermitian<double, double, 2>(m, w, z); put(r, w(0)); put(r, w(1)); put(r, z);
         fs_svd(n, s, u, v); put(r, s(0)); put(r, s(1)); for (int i = 0; i < 4; ++i) { put(r, std::abs(u(i/2, i%2))); put(r, std::abs(v(i/2, i%2))); }
         fs_diagonalize_symmetric<double, double, 4>(a, w4, z4); for (int i = 0; i < 4; ++i) put(r, w4(i)); for (int i = 0; i < 16; ++i) put(r, std::abs(z4(i/4, i%4)));
      });
      break; }
   case 6: { // perturbative eigenvalues
      Eigen::Matrix2d m[4];
      for (auto& a : m) { a << g.pick({1, 0, 100, 1e6}), x[g.below(6)], 0, x[g.below(6)]; a(1,0) = a(0,1); if (g.coin(0.5)) a(0,0) = x[g.below(6)]; }
      numbers(g, "fs_diagonalize_hermitian_perturbatively", [&](Answer& r) {
         const auto t = fs_diagonalize_hermitian_perturbatively(m[0], m[1], m[2], m[3]);
         const auto p = [&r](const auto& v) { put(r, v(0)); put(r, v(1)); };
         p(std::get<0>(t)); p(std::get<1>(t)); p(std::get<2>(t)); p(std::get<3>(t));
      });
      break; }
   default: { // two-loop routines
      double a[16]; const double ph[] = {2.3e4, 1e6, 9e5, 1.2e6, 0.6, 0.8, 1e6, 500, 10, 6e4, 1};
      const int k = 1 + g.below(4);
      for (int i = 0; i < 16; ++i) a[i] = ph[i % 11];
      const int w = g.below(5), h = flag(g), aa = g.below(2);
      static const double at[5][16] = {
         {2.3e4, 1e6, 9e5, 1.2e6, 0.6, 0.8, 1e6, 500, 10, 6e4, 1},
         {2.3e4, 9., 4e5, 9e5, 1.2e6, 8e5, 1.1e6, 0.6, 0.8, 0.1, 0.99, 1e6, 500, 10, 6e4},
         {9., 1e6, 9e5, 1.2e6, 0.6, 0.8, 1e6, 500, 0.1, 6e4, 1},
         {3., 4e5, 9e5, 8e5, 1.1e6, 0.1, 0.99, 1e6, 500, 10, 6e4},
         {3., 9., 8e5, 1.1e6, 9e5, 1.2e6, 0.6, 0.8, 0.1, 0.99, 1e6, 500, 10, 6e4}};
      static const int n[5] = {11, 15, 11, 11, 14};
      for (int i = 0; i < n[w]; ++i) a[i] = at[w][i];
      for (int j = 0; j < k; ++j) { const int i = g.below(n[w]); a[i] = g.coin(0.2) ? a[g.below(n[w])] : strange(g, a[i]); g.note(vf::cat("a", i), a[i]); }
      using namespace mh2l;
      static const char* nm[] = {"at_as", "at_at", "ab_as", "atau_atau", "ab_atau"};
      numbers(g, nm[w], [&](Answer& r) {
         switch (w) {
         case 0: put(r, delta_mh2_2loop_at_as(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], h)); break;
         case 1: put(r, delta_mh2_2loop_at_at(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], h, aa)); break;
         case 2: put(r, delta_mh2_2loop_ab_as(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], h)); break;
         case 3: put(r, delta_mh2_2loop_atau_atau(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], h)); break;
         default: put(r, delta_mh2_2loop_ab_atau(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], h));
         }
      });
   }
   }
}
