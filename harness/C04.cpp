// C04: results depend on the inputs only, not on the call history.
#include "queries.hpp"
#include <vector>

using namespace qu;
using vf::cat;

static vf::Info info(
   "a history with at least six queries, at least two different parameter points, and at least one repeated use of an object after a different query, a copy or an exception",
   {"the reference answer comes from a child of a process that has never called the library",
    "text output is compared through a checksum of the printed text"});

namespace {
Pristine pristine;

/// an object with its point and settings
struct Obj {
   int kind, point; State s;
   std::unique_ptr<HC> hc; std::unique_ptr<EFT> eft; std::unique_ptr<TC> tc; std::unique_ptr<FO> fo;
   int used = 0;
};

Obj copy(const Obj& o)
{
   Obj r; r.kind = o.kind; r.point = o.point; r.s = o.s; r.used = o.used;
   if (o.hc) r.hc.reset(new HC(*o.hc)); if (o.eft) r.eft.reset(new EFT(*o.eft));
   if (o.tc) r.tc.reset(new TC(*o.tc)); if (o.fo) r.fo.reset(new FO(*o.fo));
   return r;
}
void assign(Obj& a, const Obj& b)
{
   a.point = b.point; a.s = b.s; a.used += b.used;
   if (a.hc) *a.hc = *b.hc; if (a.eft) *a.eft = *b.eft; if (a.tc) *a.tc = *b.tc; if (a.fo) *a.fo = *b.fo;
}
} // namespace

VF_SUB("history", 6000, 150000)
{
   pristine.start();
   Silence sil;
   std::vector<pt::Point> pts; const int np = 1 + g.below(3);
   for (int i = 0; i < np; ++i) {
      pts.push_back(point(g));
      if (i && g.coin(0.3)) { pts[i] = pts[0]; pts[i].p.mu = -pts[i].p.mu; } // neighbour
      pt::note(g, pts[i].p, cat("p", i, "."));
   }
   std::vector<Obj> pool;
   std::string log; int queries = 0, reused = 0, threw = 0; bool mixed = false; int lastPoint = -1;
   const int n = 3 + g.below(22);
   for (int k = 0; k < n; ++k) {
      const int act = g.below(10);
      if (pool.empty() || act == 0) { // construct
         const int kind = g.pick({kHC, kHC, kEFT, kTC, kFO}), i = g.below(np);
         Obj o; o.kind = kind; o.point = i; const bool verbose = g.coin(0.3);
         if (kind == kFO) o.s.onlyAt = g.below(2);
         Parameters p = pts[i].p; unsigned char before[sizeof p]; std::memcpy(before, &p, sizeof p);
         log += cat(" new:", kind, "(p", i, verbose ? ",verbose" : "", ")");
         try {
            switch (kind) {
            case kHC: o.hc.reset(new HC(p, verbose)); break;
            case kEFT: o.eft.reset(new EFT(p, verbose)); break;
            case kTC: o.tc.reset(new TC(p, verbose)); break;
            default: o.fo.reset(new FO(makeFO(p, o.s)));
            }
            if (pool.size() > 4) pool.erase(pool.begin() + g.below(5));
            pool.push_back(std::move(o));
         } catch (const std::exception&) { ++threw; log += "!"; }
         g.require(std::memcmp(before, &p, sizeof p) == 0, "the constructor altered the parameter object");
      } else if (act == 1) { // copy
         const int i = g.below((int)pool.size());
         log += cat(" copy#", i);
         Obj c = copy(pool[i]);
         if (pool.size() > 4) pool.erase(pool.begin() + g.below(5));
         pool.push_back(std::move(c));
      } else if (act == 2) { // assign between objects of the same kind
         const int i = g.below((int)pool.size()), j = g.below((int)pool.size());
         if (pool[i].kind == pool[j].kind) { log += cat(" assign#", i, "=#", j); assign(pool[i], pool[j]); }
      } else if (act == 3) { // settings
         Obj& o = pool[g.below((int)pool.size())];
         log += cat(" set(p", o.point, ",kind", o.kind, ")");
         randomSetting(g, o.kind, o.s);
         if (o.eft) apply(*o.eft, o.s); if (o.tc) apply(*o.tc, o.s); if (o.fo) apply(*o.fo, o.s);
      } else if (act == 4) { // independent direct calculation, result unused
         const int i = g.below(np); const Query q = randomQuery(g, g.below(NKind), pts[i]);
         log += cat(" other:", describe(q), "(p", i, ")");
         fresh(pts[i].p, State(), q);
      } else { // query, compared with the answer of a pristine process
         const int i = g.below((int)pool.size()); Obj& o = pool[i];
         const Query q = randomQuery(g, o.kind, pts[o.point]);
         log += cat(" ask#", i, ":", describe(q), "(p", o.point, ")");
         Answer a; std::memset(&a, 0, sizeof a);
         guarded(a, [&] { if (o.hc) ask(*o.hc, q, a); if (o.eft) ask(*o.eft, q, a); if (o.tc) ask(*o.tc, q, a); if (o.fo) ask(*o.fo, q, a); });
         g.note("history", log);
         const Answer b = pristine.ask(pts[o.point].p, o.s, q);
         const std::string d = difference(a, b);
         if (!d.empty()) g.fail(cat(describe(q), " on a used object / in a fresh process: ", d));
         ++queries; if (o.used++) ++reused; if (!a.ok) { ++threw; }
         if (lastPoint >= 0 && lastPoint != o.point) mixed = true; lastPoint = o.point;
      }
   }
   g.label(cat("queries ", queries/5*5, "+")); if (threw) g.label("history with exceptions");
   if (mixed) g.label("several points");
   if (queries >= 6 && mixed && reused > 0) g.nontrivial();
}

// the same query asked repeatedly, with another calculation in between
VF_SUB("repeat", 12000, 300000)
{
   pristine.start();
   Silence sil;
   const auto a = point(g), b = g.coin(0.3) ? a : point(g);
   pt::note(g, a.p, "a."); 
   const int ka = g.pick({kHC, kHC, kEFT, kTC, kFO}), kb = g.pick({kHC, kHC, kEFT, kTC, kFO});
   const Query q = randomQuery(g, ka, a), r = randomQuery(g, kb, b);
   g.note("query", describe(q)); g.note("between", describe(r));
   State s; randomSetting(g, ka, s);
   const Answer x = fresh(a.p, s, q); fresh(b.p, State(), r); const Answer y = fresh(a.p, s, q);
   std::string d = difference(x, y);
   if (!d.empty()) g.fail(cat(describe(q), " before and after ", describe(r), ": ", d));
   d = difference(pristine.ask(a.p, s, q), y);
   if (!d.empty()) g.fail(cat(describe(q), " in a fresh process and after ", describe(r), ": ", d));
   if (x.ok) g.nontrivial();
   g.label(x.ok ? "returns" : "throws");
}
