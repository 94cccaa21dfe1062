// C23: the result object is a record. Stateful test against a plain model.
#include "ho.hpp"
#include <climits>
#include <set>
#include <vector>

using namespace vf;
using namespace ho;

static Info info(
   "a case is a sequence of up to 60 operations (setter with arbitrary value or matrix, invalid setter or getter call, copy construction, copy assignment, self-assignment, move, swap) on up to four result objects, "
   "after every operation all getters of all objects are compared bitwise with a plain record; non-trivial: at least three assignments and at least one copy or invalid call",
   {"mass pairs containing a not-a-number keep their order"});

/// invalid calls: must throw a standard exception and leave the object unchanged (checked by the caller)
static void invalid(Gen& g, HierarchyObject& o, std::string& log)
{
   const int op = g.below(20), b0 = badloop(g, 0), b1 = badloop(g, 1); const double v = value(g);
   log += cat("bad", op, ",", b0, " ");
   const auto thr = [&](const char* what, auto f) {
      try { f(); } catch (const std::exception&) { return; }
      g.fail(cat(what, " accepts an invalid argument ", op == 0 || op == 1 ? b1 : b0));
   };
   switch (op) {
   case 0: thr("setDMhExpUncertainty", [&] { o.setDMhExpUncertainty(b1, v); }); break;
   case 1: thr("getDMhExpUncertainty", [&] { o.getDMhExpUncertainty(b1); }); break;
   case 2: thr("setDMh", [&] { o.setDMh(b0, M2::Constant(v)); }); break;
   case 3: thr("getDMh", [&] { o.getDMh(b0); }); break;
   case 4: thr("setDMh2", [&] { o.setDMh2(b0, v); }); break;
   case 5: thr("getDMh2", [&] { o.getDMh2(b0); }); break;
   case 6: thr("setDLambda", [&] { o.setDLambda(b0, v); }); break;
   case 7: thr("getDLambda", [&] { o.getDLambda(b0); }); break;
   case 8: thr("setDLambdaDRbarPrimeToMSbarShift", [&] { o.setDLambdaDRbarPrimeToMSbarShift(b0, v); }); break;
   case 9: thr("getDLambdaDRbarPrimeToMSbarShift", [&] { o.getDLambdaDRbarPrimeToMSbarShift(b0); }); break;
   case 10: thr("setDMh2EFT", [&] { o.setDMh2EFT(b0, v); }); break;
   case 11: thr("getDMh2EFTAt", [&] { o.getDMh2EFTAt(b0); }); break;
   case 12: thr("setDMh2FO", [&] { o.setDMh2FO(b0, v); }); break;
   case 13: thr("getDMh2FO", [&] { o.getDMh2FO(b0); }); break;
   case 14: thr("setDMh2FOAt", [&] { o.setDMh2FOAt(b0, v); }); break;
   case 15: thr("getDMh2FOAt", [&] { o.getDMh2FOAt(b0); }); break;
   case 16: thr("getDLambdaUncertainty", [&] { o.getDLambdaUncertainty(b0); }); break;
   case 17: thr("setRenormalizationScheme", [&] { o.setRenormalizationScheme(b0); }); break;
   default: { const int f = g.coin() ? b0 : 2 + g.below(3); thr("setMDRFlag", [&] { o.setMDRFlag(f == 1 || f == 0 ? 7 : f); }); }
   }
}

VF_SUB("record", 60000, 600000)
{
   std::vector<HierarchyObject> o; std::vector<Model> m;
   std::string log;
   const auto create = [&] { const bool b = g.coin(); o.emplace_back(b); Model x{}; x.isAlphab = b; x.ren = 1; m.push_back(x); log += cat("new", b, " "); };
   o.reserve(8); create();
   compare(g, o[0], m[0], "fresh object");
   const int n = 1 + g.below(60); int sets = 0, others = 0;
   for (int k = 0; k < n; ++k) {
      const int i = g.below((int)o.size()), j = g.below((int)o.size());
      switch (g.below(12)) {
      case 0: if (o.size() < 4) create(); break;
      case 1: if (o.size() < 4) { o.push_back(HierarchyObject(o[i])); m.push_back(m[i]); log += "copy "; ++others; } break;
      case 2: o[i] = o[j]; m[i] = m[j]; log += cat("assign", i, j, " "); ++others; break;
      case 3: std::swap(o[i], o[j]); std::swap(m[i], m[j]); log += cat("swap", i, j, " "); ++others; break;
      case 4: case 5: invalid(g, o[i], log); ++others; break;
      case 6: { const HierarchyObject c(o[i]); compare(g, c, m[i], "copy"); log += "constcopy "; break; }
      default: assign(g, o[i], m[i], log); ++sets;
      }
      g.note("ops", log);
      for (std::size_t q = 0; q < o.size(); ++q) compare(g, o[q], m[q], cat("object ", q, " after ", k + 1, " operations").c_str());
   }
   if (sets >= 3 && others >= 1) g.nontrivial();
   g.label(cat("objects ", o.size()));
}

VF_SUB("every slot keeps its own value", 20000, 200000)
{
   // all slots get distinct values in random order; nothing may alias
   HierarchyObject o(g.coin()); Model m{}; m.isAlphab = o.getIsAlphab(); m.ren = 1;
   g.nontrivial();
   double v = 1; const double st = g.uni(0.5, 2); g.note("step", st);
   const auto nx = [&] { return v += st; };
   std::vector<int> order(45); for (int i = 0; i < 45; ++i) order[i] = i;
   for (int i = 44; i > 0; --i) std::swap(order[i], order[g.below(i + 1)]);
   const auto mat = [&](double* d) { M2 x; for (int i = 0; i < 4; ++i) x(i/2, i%2) = d[i] = nx(); return x; };
   for (int s : order) {
      const int l = s%4;
      switch (s/4) {
      case 0: if (l) o.setDMhExpUncertainty(l, m.unc[l] = nx()); break;
      case 1: o.setDMh(l, mat(m.mh[l])); break;
      case 2: o.setDMh2(l, m.mh2[l] = nx()); break;
      case 3: o.setDLambda(l, m.lam[l] = nx()); break;
      case 4: o.setDLambdaDRbarPrimeToMSbarShift(l, m.shift[l] = nx()); break;
      case 5: o.setDMh2EFT(l, m.eft[l] = nx()); break;
      case 6: o.setDMh2FO(l, m.fo[l] = nx()); break;
      case 7: o.setDMh2FOAt(l, m.foat[l] = nx()); break;
      case 8: if (l == 0) o.setDLambdaH3m(m.lamH3m = nx()); else if (l == 1) o.setDLambdaEFT(m.lamEFT = nx()); else if (l == 2) o.setDLambdaNonLog(m.lamNonLog = nx()); else o.setDLambdaXtUncertainty(m.lamXt = nx()); break;
      case 9: if (l == 0) o.setAbsDiff2L(m.absDiff = nx()); else if (l == 1) o.setRelDiff2L(m.relDiff = nx()); else if (l == 2) o.setDMhDRbarPrimeToMDRbarPrimeShift(mat(m.mdrShift)); else o.setDMhDRbarPrimeToH3mShift(mat(m.h3mShift)); break;
      case 10: { const double a = nx(), b = nx(); o.setMDRMasses(g.coin() ? V2(a, b) : V2(b, a)); m.mdr[0] = std::min(a, b); m.mdr[1] = std::max(a, b); break; }
      default: o.setSuitableHierarchy(m.hierarchy = 3 + s);
      }
   }
   compare(g, o, m, "object");
}

VF_SUB("hierarchy names", 20000, 100000)
{
   static const char* const names[14] = {"h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"};
   const HierarchyObject o(g.coin());
   std::set<std::string> seen;
   for (int i = 0; i < 14; ++i) { const auto n = o.getH3mHierarchyNotation(i); g.require(n == names[i], cat("name of hierarchy ", i, ": ", n)); seen.insert(n); }
   g.require(seen.size() == 14, "names are unique");
   const int h = g.pick({-1, 14, 15, 1e9, -1e9}) + g.below(1) + (g.coin() ? 0 : 0), k = g.coin() ? h : (int)(unsigned)g.bits();
   if (k < 0 || k > 13) { g.nontrivial(); g.note("hierarchy", k); const auto n = o.getH3mHierarchyNotation(k); g.require(!seen.count(n), cat("unknown hierarchy ", k, " has the name ", n)); g.require(n.find(std::to_string(k)) != std::string::npos, "message names the number"); }
}
