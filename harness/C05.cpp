// C05: concurrent calculations give the sequential results.
// Built with ThreadSanitizer (checks.json): a data race ends the worker
// process and is reported as a failure of the case it was running.
#include "queries.hpp"
#include <atomic>
#include <thread>
#include <vector>

using namespace qu;
using vf::cat;

static vf::Info info(
   "at least two threads with at least two queries each, of which at least two threads evaluate two-loop Higgs mass corrections or complete calculations",
   {"schedules are those the operating system produces on 8 cores, with random delays and a common start, and the happens-before analysis of ThreadSanitizer over them",
    "the Fortran routines are built with ThreadSanitizer, too",
    "writing to the standard streams is the C++ library's business and not judged"});

namespace {
struct NullBuf : std::streambuf {
   int overflow(int c) override { return c == EOF ? 0 : c; }
   std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Quiet {
   NullBuf n; std::streambuf *a, *b, *c;
   Quiet() : a(std::cout.rdbuf(&n)), b(std::cerr.rdbuf(&n)), c(std::clog.rdbuf(&n)) {}
   ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); }
};

struct Task { int point; bool verbose; int delay; State s; Query q; Answer a; };

/// on a fresh object; also verbose ones
Answer answer(const Parameters& p, const Task& t)
{
   if (!t.verbose || t.q.kind == kFO) return fresh(p, t.s, t.q);
   Answer r; std::memset(&r, 0, sizeof r);
   guarded(r, [&] {
      switch (t.q.kind) {
      case kHC: { HC o(p, true); ask(o, t.q, r); break; }
      case kEFT: { EFT o(p, true); apply(o, t.s); ask(o, t.q, r); break; }
      default: { TC o(p, true); apply(o, t.s); ask(o, t.q, r); }
      }
   });
   return r;
}

bool heavy(const Query& q) { return (q.kind == kHC && (q.op == 0 || q.op == 7 || q.op == 3)) || (q.kind == kFO && (q.op == 0 || q.op == 2 || q.op == 7)); }

void concurrent(Gen& g, std::vector<std::vector<Task>>& job, const std::vector<pt::Point>& pts, bool verbose)
{
   std::atomic<int> ready{0}; std::atomic<bool> go{false};
   std::vector<std::thread> th; const int n = (int)job.size();
   std::vector<std::vector<Answer>> got(n);
   for (int i = 0; i < n; ++i) got[i].resize(job[i].size());
   for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
      ++ready; while (!go) std::this_thread::yield();
      for (std::size_t k = 0; k < job[i].size(); ++k) {
         volatile int w = 0; for (int d = job[i][k].delay; d > 0; --d) w = w + 1;
         got[i][k] = answer(pts[job[i][k].point].p, job[i][k]);
      }
   });
   while (ready < n) std::this_thread::yield();
   go = true;
   for (auto& t : th) t.join();
   for (int i = 0; i < n; ++i) for (std::size_t k = 0; k < job[i].size(); ++k) {
      const std::string d = difference(got[i][k], job[i][k].a);
      if (!d.empty()) g.fail(cat("thread ", i, ", query ", k, " (", describe(job[i][k].q), "), concurrent / sequential: ", d));
   }
   (void)verbose;
}

void generate(Gen& g, bool verboseAllowed, int onlyKind, int onlyOp)
{
   Quiet quiet;
   std::vector<pt::Point> pts; const int np = 1 + g.below(4);
   for (int i = 0; i < np; ++i) { pts.push_back(point(g)); pt::note(g, pts[i].p, cat("p", i, ".")); }
   const int n = 2 + g.below(5);
   std::vector<std::vector<Task>> job(n);
   int heavies = 0; std::size_t least = 99; std::string log;
   for (int i = 0; i < n; ++i) {
      bool h = false;
      const int m = 1 + g.below(5);
      for (int k = 0; k < m; ++k) {
         Task t; t.point = g.below(np); t.verbose = verboseAllowed && g.coin(0.4); t.delay = g.coin() ? g.below(3000) : 0;
         const int kind = onlyKind >= 0 ? onlyKind : (int)g.pick({kHC, kHC, kEFT, kTC, kFO});
         t.q = randomQuery(g, kind, pts[t.point]); if (onlyOp >= 0) t.q.op = onlyOp;
         if (g.coin(0.4)) randomSetting(g, kind, t.s);
         if (kind == kFO) t.s.onlyAt = g.below(2);
         h |= heavy(t.q); log += cat(" T", i, ":", describe(t.q), "(p", t.point, ")");
         job[i].push_back(t);
      }
      heavies += h; least = std::min(least, job[i].size());
   }
   g.note("tasks", log);
   // the concurrent run first in half of the cases, so that nothing is initialised by the sequential one
   const bool first = g.coin();
   for (int rep = 0; rep < 2; ++rep) {
      if ((rep == 0) != first) { for (auto& j : job) for (auto& t : j) { Task q = t; q.verbose = false; t.a = answer(pts[t.point].p, q); } }
      else if (!first) concurrent(g, job, pts, verboseAllowed);
      else { // keep results: run, then compare after the sequential run
         auto copy = job; for (auto& j : copy) for (auto& t : j) { Task q = t; q.verbose = false; }
         std::vector<std::thread> th; std::atomic<bool> go{false};
         for (auto& j : copy) th.emplace_back([&] { while (!go) std::this_thread::yield(); for (auto& t : j) t.a = answer(pts[t.point].p, t); });
         go = true; for (auto& t : th) t.join();
         for (std::size_t i = 0; i < job.size(); ++i) for (std::size_t k = 0; k < job[i].size(); ++k) {
            Task q = job[i][k]; q.verbose = false;
            const std::string d = difference(copy[i][k].a, answer(pts[q.point].p, q));
            if (!d.empty()) g.fail(cat("thread ", i, ", query ", k, " (", describe(q.q), "), concurrent / sequential: ", d));
         }
         break;
      }
   }
   g.label(cat("threads ", n)); if (first) g.label("concurrent run first");
   if (heavies >= 2 && least >= 2) g.nontrivial();
}
} // namespace

VF_SUB("mixed", 2400, 60000) { generate(g, true, -1, -1); }
VF_SUB("two-loop", 1600, 40000) { generate(g, false, kFO, g.coin() ? 2 : 0); }
VF_SUB("complete", 800, 20000) { generate(g, true, kHC, 0); }

// one calculator shared by all threads for calls that do not modify it
VF_SUB("shared", 800, 20000)
{
   Quiet quiet;
   const auto p = point(g); pt::note(g, p.p);
   const int kind = g.below(NKind);
   State s; if (g.coin()) randomSetting(g, kind, s);
   std::unique_ptr<HC> hc; std::unique_ptr<EFT> eft; std::unique_ptr<TC> tc; std::unique_ptr<FO> fo;
   try {
      if (kind == kHC) hc.reset(new HC(p.p, false)); if (kind == kEFT) { eft.reset(new EFT(p.p, false)); apply(*eft, s); }
      if (kind == kTC) { tc.reset(new TC(p.p, false)); apply(*tc, s); } if (kind == kFO) { fo.reset(new FO(makeFO(p.p, s))); apply(*fo, s); }
   } catch (const std::exception&) { g.label("rejected point"); return; }
   const int n = 2 + g.below(5), m = 2 + g.below(4);
   std::vector<std::vector<Query>> q(n); std::vector<std::vector<Answer>> got(n);
   std::string log;
   for (int i = 0; i < n; ++i) for (int k = 0; k < m; ++k) {
      Query x = randomQuery(g, kind, p); if (kind == kHC) x.op = 1 + x.op%5; // the const member functions
      q[i].push_back(x); log += " " + describe(x);
   }
   g.note("queries", log);
   const auto one = [&] (const Query& x, Answer& a) {
      std::memset(&a, 0, sizeof a);
      guarded(a, [&] { if (hc) ask(*hc, x, a); if (eft) ask(*eft, x, a); if (tc) ask(*tc, x, a); if (fo) ask(*fo, x, a); }); };
   std::vector<std::thread> th; std::atomic<bool> go{false};
   for (int i = 0; i < n; ++i) { got[i].resize(m); th.emplace_back([&, i] { while (!go) std::this_thread::yield(); for (int k = 0; k < m; ++k) one(q[i][k], got[i][k]); }); }
   go = true; for (auto& t : th) t.join();
   for (int i = 0; i < n; ++i) for (int k = 0; k < m; ++k) {
      const std::string d = difference(got[i][k], fresh(p.p, s, q[i][k]));
      if (!d.empty()) g.fail(cat("thread ", i, ", query ", k, " (", describe(q[i][k]), ") on a shared object / alone: ", d));
   }
   g.label(cat("shared object of kind ", kind)); g.nontrivial();
}
