// Queries to the library as plain data, answered on fresh or on used objects,
// and a pristine process that answers them without any call history.
#pragma once
#include "results.hpp"
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>

namespace qu {
using namespace himalaya;
using vf::Gen;
using HC = HierarchyCalculator;
using EFT = mh2_eft::Mh2EFTCalculator;
using TC = mh2_eft::ThresholdCalculator;
using FO = mh2_fo::MSSM_mass_eigenstates;

/// class of objects a query is addressed to
enum Kind { kHC, kEFT, kTC, kFO, NKind };

struct Query {
   int kind = 0, op = 0;
   int a = 0, b = 0, c = 0, d = 0, h = 0, mdr = 0, ab = 0;
   double x = 0;
   double m[4] = {0, 0, 0, 0}; ///< user-given mass matrix
};

/// settable state of the objects
struct State {
   int limit = -1, xt = -1;
   signed char eft[64], fo[64]; ///< -1: untouched
   int diag = -1, mom = -1; double goal = 0; int maxit = 0; int onlyAt = 0;
   State() { std::memset(eft, -1, sizeof eft); std::memset(fo, -1, sizeof fo); }
};

struct Answer { int ok = 0; int n = 0; double v[96]; char what[160]; };

inline void put(Answer& r, double v) { if (r.n < 96) r.v[r.n++] = v; }
inline void put(Answer& r, const Eigen::Matrix2d& m) { for (int i = 0; i < 4; ++i) put(r, m(i/2, i%2)); }

inline HierarchyObject object(const Query& q)
{
   HierarchyObject o(q.ab); o.setSuitableHierarchy(q.h); o.setMDRFlag(q.mdr); return o;
}

inline void ask(HC& hc, const Query& q, Answer& r)
{
   HierarchyObject o = object(q);
   switch (q.op) {
   case 0: { const auto x = hc.calculateDMh3L(q.ab); for (const auto& v : res::dump(x)) put(r, v.v); break; }
   case 1: put(r, hc.calculateHierarchy(o, q.a, q.b, q.c)); break;
   case 2: put(r, hc.getMt41L(o, q.a, q.b)); break;
   case 3: put(r, hc.getMt42L(o, q.a, q.b)); break;
   case 4: put(r, hc.calcDRbarToMDRbarShift(o, q.a, q.b)); break;
   case 5: put(r, hc.shiftMst1ToMDR(o, q.a, q.b)); put(r, hc.shiftMst2ToMDR(o, q.a, q.b)); break;
   case 6: { Eigen::Matrix2d m; m << q.m[0], q.m[1], q.m[1], q.m[2]; put(r, hc.getExpansionUncertainty(o, m, q.a, q.b, q.c)); break; }
   default: { put(r, hc.compareHierarchies(o)); for (const auto& v : res::dump(o)) put(r, v.v); break; }
   }
   r.ok = 1;
}

inline void ask(EFT& e, const Query& q, Answer& r)
{
   put(r, e.getDeltaMh2EFT0Loop()); put(r, e.getDeltaMh2EFT1Loop(q.a, q.b)); put(r, e.getDeltaMh2EFT2Loop(q.a, q.b));
   put(r, e.getDeltaMh2EFT3Loop(q.a, q.b, q.c)); put(r, e.getDeltaLambdaDegenerate(q.x, q.m[0], q.m[1], q.a));
   if (q.d) { std::ostringstream s; s << e; double h = 0; for (char ch : s.str()) h = std::fmod(h*31 + (unsigned char)ch, 1e12); put(r, h); }
   r.ok = 1;
}

inline void ask(TC& t, const Query& q, Answer& r)
{
   if (q.op == 0) put(r, t.getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(q.h), static_cast<mh2_eft::RenSchemes>(q.mdr), q.a));
   else if (q.op == 1) put(r, t.getDRbarPrimeToMSbarShift(q.b, q.a, q.c));
   else put(r, t.getDRbarPrimeToMSbarXtTerms(static_cast<mh2_eft::Limits>(q.d), q.b, q.a));
   put(r, static_cast<int>(t.getLimit()));
   r.ok = 1;
}

inline void ask(FO& f, const Query& q, Answer& r)
{
   switch (q.op) {
   case 0: { const auto t = f.calculate_Mh2(); put(r, std::get<0>(t)); put(r, std::get<1>(t)); put(r, std::get<2>(t)); break; }
   case 1: put(r, f.delta_mh2_1loop(q.x)); break;
   case 2: put(r, f.delta_mh2_2loop()); break;
   case 3: put(r, f.get_mass_matrix_hh()); put(r, f.get_mass_matrix_hh_gaugeless()); break;
   case 4: put(r, f.delta_mh2_1loop_gaugeless()); put(r, f.delta_mh2_1loop_gaugeless_deriv()); break;
   case 5: put(r, f.delta_mh2_2loop_mom_it_pert()); break;
   case 6: put(r, f.delta_mh2_2loop_mom_it_num(q.a ? 1e-5 : 1e-9, 1 + q.b*50)); break;
   default: { std::ostringstream s; s << f; double h = 0; for (char ch : s.str()) h = std::fmod(h*31 + (unsigned char)ch, 1e12); put(r, h); }
   }
   r.ok = 1;
}

inline void apply(HC&, const State&) {}
inline void apply(EFT& e, const State& s) { for (int i = 0; i < CouplingOrders::NUMBER_OF_COUPLING_ORDERS; ++i) if (s.eft[i] >= 0) e.setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(i), s.eft[i]); }
inline void apply(TC& t, const State& s) { if (s.limit >= 0) t.setLimit(static_cast<mh2_eft::Limits>(s.limit)); if (s.xt >= 0) t.setXtOrderOfDeltaLambdaAtAs2(s.xt); }
inline void apply(FO& f, const State& s)
{
   for (int i = 0; i < CouplingOrders::NUMBER_OF_COUPLING_ORDERS; ++i) if (s.fo[i] >= 0) f.set_correction(static_cast<CouplingOrders::CouplingOrders>(i), s.fo[i]);
   if (s.diag >= 0) f.set_diagonalization(s.diag ? mh2_fo::Diagonalization::num : mh2_fo::Diagonalization::pert);
   if (s.mom >= 0) f.set_mom_it(s.mom == 0 ? mh2_fo::Momentum_iteration::off : s.mom == 1 ? mh2_fo::Momentum_iteration::pert : mh2_fo::Momentum_iteration::num, s.goal, s.maxit);
}

template <class F> void guarded(Answer& r, F f)
{
   try { f(); }
   catch (const std::exception& e) { r.ok = 0; r.n = 0; std::strncpy(r.what, e.what(), sizeof r.what - 1); }
}

inline FO makeFO(Parameters p, const State& s) { p.validate(false); return FO(p, s.onlyAt); }

/// answer on freshly constructed objects
inline Answer fresh(const Parameters& p, const State& s, const Query& q)
{
   Answer r; std::memset(&r, 0, sizeof r);
   guarded(r, [&] {
      switch (q.kind) {
      case kHC: { HC o(p, false); ask(o, q, r); break; }
      case kEFT: { EFT o(p, false); apply(o, s); ask(o, q, r); break; }
      case kTC: { TC o(p, false); apply(o, s); ask(o, q, r); break; }
      default: { FO o = makeFO(p, s); apply(o, s); ask(o, q, r); }
      }
   });
   return r;
}

inline std::string difference(const Answer& a, const Answer& b)
{
   if (a.ok != b.ok) return vf::cat(a.ok ? "returns" : vf::cat("throws \"", a.what, "\""), " / ", b.ok ? "returns" : vf::cat("throws \"", b.what, "\""));
   if (!a.ok) return std::strcmp(a.what, b.what) ? vf::cat("throws \"", a.what, "\" / \"", b.what, "\"") : "";
   if (a.n != b.n) return "different number of values";
   for (int i = 0; i < a.n; ++i) if (!res::bitEqual(a.v[i], b.v[i])) return vf::cat("value ", i, ": ", a.v[i], " / ", b.v[i]);
   return "";
}

inline std::string describe(const Query& q)
{
   static const char* n[] = {"HierarchyCalculator", "Mh2EFTCalculator", "ThresholdCalculator", "MSSM_mass_eigenstates"};
   return vf::cat(n[q.kind], " op", q.op, "(", q.a, ",", q.b, ",", q.c, ",", q.d, ";h=", q.h, ",mdr=", q.mdr, ",ab=", q.ab, ")");
}

inline Query randomQuery(Gen& g, int kind, const pt::Point& pt)
{
   Query q; q.kind = kind;
   q.a = g.below(2); q.b = g.below(2); q.c = g.below(2); q.d = g.below(2); q.ab = g.coin(0.3);
   switch (kind) {
   case kHC:
      q.op = g.coin(0.3) ? 0 : g.below(8); q.h = g.below(14); q.mdr = g.below(2);
      if (q.op == 1 && g.coin(0.1)) q.h = g.pick({-1, 14, 1000});       // throws
      { const double m = pt.p.MA > 0 ? pt.p.MA : 1000; q.m[0] = m*m; q.m[1] = -0.1*m*m; q.m[2] = 2e4; }
      break;
   case kEFT: q.x = pt.p.scale; q.m[0] = pt.MS; q.m[1] = pt.xt*pt.MS; break;
   case kTC: q.op = g.below(3); q.h = g.below(static_cast<int>(mh2_eft::ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES)); q.mdr = g.below(4); q.d = g.below(6);
      if (q.op) q.b = q.op == 1 ? g.below(6) : 4 + g.below(3);
      break;
   default: q.op = g.below(8); q.x = g.sign()*g.logu(1, 1e8);
   }
   return q;
}

/// applies a random assignment of the object's settings to object-state s
inline void randomSetting(Gen& g, int kind, State& s)
{
   const int n = CouplingOrders::NUMBER_OF_COUPLING_ORDERS;
   switch (kind) {
   case kEFT: for (int k = g.below(8); k >= 0; --k) s.eft[g.below(n)] = g.below(2); break;
   case kTC: if (g.coin()) s.limit = g.below(6); else s.xt = g.below(4); break;
   case kFO:
      switch (g.below(3)) {
      case 0: for (int k = g.below(8); k >= 0; --k) s.fo[g.below(n)] = g.below(2); break;
      case 1: s.diag = g.below(2); break;
      default: s.mom = g.below(3); s.goal = g.pick({1e-5, 1e-3, 1e-10}); s.maxit = 1 + g.below(60);
      }
   }
}

/// a process without history: forks one child per request
class Pristine {
public:
   void start()
   {
      if (pid_ > 0 && owner_ == getpid()) return;
      int a[2], b[2];
      if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
      owner_ = getpid();
      pid_ = fork();
      if (pid_ == 0) { ::close(a[1]); ::close(b[0]); serve(a[0], b[1]); _exit(0); }
      ::close(a[0]); ::close(b[1]); out_ = a[1]; in_ = b[0];
   }
   Answer ask(const Parameters& p, const State& s, const Query& q)
   {
      Msg m; m.p = p; m.s = s; m.q = q;
      Answer r; std::memset(&r, 0, sizeof r);
      if (!send(out_, &m, sizeof m) || !recv(in_, &r, sizeof r)) throw std::runtime_error("pristine process lost");
      return r;
   }
private:
   struct Msg { Parameters p; State s; Query q; };
   static bool send(int fd, const void* p, std::size_t n) { auto c = (const char*)p; while (n) { const ssize_t k = ::write(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
   static bool recv(int fd, void* p, std::size_t n) { auto c = (char*)p; while (n) { const ssize_t k = ::read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
   static void serve(int in, int out)
   {
      Msg m;
      while (recv(in, &m, sizeof m)) {
         const pid_t k = fork();
         if (k == 0) { alarm(20); const Answer r = fresh(m.p, m.s, m.q); send(out, &r, sizeof r); _exit(0); }
         int st; waitpid(k, &st, 0);
         if (!WIFEXITED(st)) { Answer r; std::memset(&r, 0, sizeof r); std::strcpy(r.what, "crash"); send(out, &r, sizeof r); }
      }
   }
   pid_t pid_ = 0, owner_ = 0; int out_ = -1, in_ = -1;
};

/// silences the library's messages
struct Silence {
   std::ostringstream s; std::streambuf *a, *b, *c;
   Silence() : a(std::cout.rdbuf(s.rdbuf())), b(std::cerr.rdbuf(s.rdbuf())), c(std::clog.rdbuf(s.rdbuf())) {}
   ~Silence() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); }
};

/// a parameter point, valid in most cases
inline pt::Point point(Gen& g)
{
   pt::Opt o; auto r = pt::make(g, o);
   switch (g.below(10)) {
   case 8: { // rejected
      switch (g.below(3)) {
      case 0: r.p.mq2(2,2) = -r.p.mq2(2,2); break;
      case 1: r.p.Au(2,2) *= 1e3; r.p.Au(2,2) += 1e6; break;
      default: r.p.vu = -r.p.vu;
      }
      break; }
   case 9: // no hierarchy suitable: very light squarks, heavy gluino
      r.p.MG *= 10; break;
   default:;
   }
   return r;
}
} // namespace qu
