// C24: text output of parameter points and result objects.
#include "ho.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include <cstdlib>
#include <iomanip>
#include <map>
#include <sstream>
#include <vector>

using namespace vf;
using namespace ho;
using himalaya::Parameters;

static Info info(
   "a case is a parameter point (all ~130 entries arbitrary doubles including infinities, not-a-number, or a validated point) or a result object in an arbitrary state, printed with a random stream precision; "
   "every labelled line must exist exactly as often as documented and its numbers, parsed back, must be those of the quantity named by the label in the object; non-trivial: at least half of the entries are non-zero",
   {"numbers are compared to the stream's precision; the wording of units and of the header is not checked"});

/// all numbers of the text after '=' of every line, by label, in order of occurrence
static std::multimap<std::string, std::vector<double>> parse(const std::string& text, std::map<std::string, std::vector<std::string>>* raw = nullptr)
{
   std::multimap<std::string, std::vector<double>> r;
   std::istringstream in(text); std::string line;
   while (std::getline(in, line)) {
      const auto p = line.find(" = ");
      const auto p2 = p == std::string::npos ? line.find("= ") : p;
      if (p2 == std::string::npos || line[0] == '=') continue;
      std::string label = line.substr(0, p2); while (!label.empty() && label.back() == ' ') label.pop_back();
      std::string v = line.substr(line.find('=', p2) + 1);
      if (raw) (*raw)[label].push_back(v);
      std::vector<double> n;
      const char* c = v.c_str();
      while (*c) {
         if (*c == '{' || *c == '}' || *c == ',' || *c == ' ') { ++c; continue; }
         char* e; const double d = std::strtod(c, &e);
         if (e == c) { // a word: skip it
            while (*c && *c != ' ') ++c;
            continue;
         }
         n.push_back(d); c = e;
         if (*c && *c != ',' && *c != '}' && *c != ' ') { n.pop_back(); while (*c && *c != ' ') ++c; }
      }
      r.emplace(label, n);
   }
   return r;
}

static bool agree(double printed, double v, int prec)
{
   if (std::isnan(v)) return std::isnan(printed);
   if (std::isinf(v)) return printed == v;
   if (v == 0) return printed == 0;
   if (std::abs(v) > 1.7e308) return printed > 0 == v > 0;
   return std::abs(printed - v) <= std::abs(v)*6*std::pow(10., -prec) + 1e-320 && (printed > 0) == (v > 0);
}

using Expected = std::vector<std::pair<std::string, std::vector<double>>>;

static void check(Gen& g, const std::string& text, const Expected& ex, int prec)
{
   const auto got = parse(text);
   // labels may occur several times (e.g. strong-coupling-only and full results): compare in order of occurrence
   std::map<std::string, int> seen;
   for (const auto& e : ex) {
      const auto range = got.equal_range(e.first);
      auto it = range.first;
      for (int k = seen[e.first]++; k > 0 && it != range.second; --k) ++it;
      if (it == range.second) g.fail(cat("no line labelled '", e.first, "'"));
      if (it->second.size() < e.second.size()) g.fail(cat("line '", e.first, "' shows ", it->second.size(), " numbers, expected ", e.second.size()));
      for (std::size_t i = 0; i < e.second.size(); ++i)
         if (!agree(it->second[i], e.second[i], prec)) g.fail(cat("line '", e.first, "' shows ", it->second[i], " at position ", i, ", the object has ", e.second[i]));
   }
}

template <class T> std::string print(Gen& g, const T& o, int prec)
{
   std::ostringstream a; if (prec) a << std::setprecision(prec);
   const auto flags = a.flags(); const auto p = a.precision();
   a << o;
   g.require(a.flags() == flags && a.precision() == p && a.fill() == ' ' && a.width() == 0, "printing changes the format of the stream");
   const std::string first = a.str();
   a << o;
   g.require(a.str() == first + first, "printing a second time gives another text");
   std::ostringstream b; if (prec) b << std::setprecision(prec);
   const T c(o); (b << c) << "";
   g.require(b.str() == first, "printing a copy gives another text");
   return first;
}

static Expected expected(const Parameters& p)
{
   Expected e;
   const auto s = [&](const char* l, double v) { e.push_back({l, {v}}); };
   const auto m = [&](const char* l, const Eigen::Matrix3d& x) { std::vector<double> v; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(x(i, j)); e.push_back({l, v}); };
   s("scale", p.scale); s("mu", p.mu); s("g1", p.g1); s("g2", p.g2); s("g3", p.g3); s("vd", p.vd); s("vu", p.vu);
   m("mq2", p.mq2); m("md2", p.md2); m("mu2", p.mu2); m("ml2", p.ml2); m("me2", p.me2);
   m("Au", p.Au); m("Ad", p.Ad); m("Ae", p.Ae); m("Yu", p.Yu); m("Yd", p.Yd); m("Ye", p.Ye);
   s("M1", p.M1); s("M2", p.M2); s("MG", p.MG); s("MW", p.MW); s("MZ", p.MZ); s("Mt", p.Mt); s("Mb", p.Mb); s("Mtau", p.Mtau); s("MA", p.MA);
   e.push_back({"MSt", {p.MSt(0), p.MSt(1)}}); e.push_back({"MSb", {p.MSb(0), p.MSb(1)}}); e.push_back({"MStau", {p.MStau(0), p.MStau(1)}});
   s("s2t", p.s2t); s("s2b", p.s2b); s("s2tau", p.s2tau);
   return e;
}

static const int precs[] = {0, 17, 10, 3};

VF_SUB("parameter point, arbitrary entries", 60000, 600000)
{
   Parameters p;
   const int kind = g.below(3); // 0: all distinct integers, 1: arbitrary, 2: arbitrary with some entries left unset
   int cnt = 0;
   const auto v = [&]() -> double { ++cnt; return kind == 0 ? cnt*1.25 : value(g); };
   const auto mat = [&](Eigen::Matrix3d& x) { for (int i = 0; i < 9; ++i) x(i/3, i%3) = v(); };
   const auto set = [&](double& x) { if (kind == 2 && g.coin(0.3)) return; x = v(); };
   set(p.scale); set(p.mu); set(p.g1); set(p.g2); set(p.g3); set(p.vd); set(p.vu);
   for (auto* x : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2, &p.Au, &p.Ad, &p.Ae, &p.Yu, &p.Yd, &p.Ye}) if (!(kind == 2 && g.coin(0.3))) mat(*x);
   for (auto* x : {&p.M1, &p.M2, &p.MG, &p.MW, &p.MZ, &p.Mt, &p.Mb, &p.Mtau, &p.MA, &p.MSt(0), &p.MSt(1), &p.MSb(0), &p.MSb(1), &p.MStau(0), &p.MStau(1), &p.s2t, &p.s2b, &p.s2tau}) set(*x);
   if (cnt > 60) g.nontrivial();
   const int prec = precs[g.below(4)];
   g.note("kind", kind); g.note("precision", prec); g.note("scale", p.scale); g.note("s2tau", p.s2tau);
   const std::string t = print(g, p, prec);
   check(g, t, expected(p), prec ? prec : 6);
}

VF_SUB("result object", 60000, 600000)
{
   HierarchyObject o(g.coin()); Model m{}; m.isAlphab = o.getIsAlphab(); m.ren = 1;
   std::string log;
   const int n = g.coin(0.1) ? 0 : 1 + g.below(80);
   for (int i = 0; i < n; ++i) assign(g, o, m, log);
   if (n > 20) g.nontrivial();
   const int prec = precs[g.below(4)], pr = prec ? prec : 6;
   g.note("ops", log); g.note("precision", prec);
   g.label(m.isAlphab ? "bottom" : "top");
   const std::string t = print(g, o, prec);
   compare(g, o, m, "after printing");
   Expected e;
   const auto s = [&](const std::string& l, double v) { e.push_back({l, {v}}); };
   const auto mt = [&](const std::string& l, const double* d) { e.push_back({l, {d[0], d[1], d[2], d[3]}}); };
   const std::string who = m.isAlphab ? "Msbottom" : "Mstop";
   s("Hierarchy", m.hierarchy);
   s(who + "_1", m.mdr[0]); s(who + "_2", m.mdr[1]); s("Abs. diff 2L", m.absDiff); s("Rel. diff 2L", m.relDiff*100);
   mt("Mh^2_0L", m.mh[0]); mt("ΔMh^2_1L", m.mh[1]); mt("ΔMh^2_2L", m.mh[2]); mt("ΔMh^2_3L", m.mh[3]);
   for (int l = 1; l <= 3; ++l) s(cat("Exp. uncert. ", l, "L"), m.unc[l]);
   mt("DR' -> MDR' shift", m.mdrShift); mt("DR' -> H3m shift", m.h3mShift);
   for (int l = 0; l < 3; ++l) s(cat("Δλ_", l, "L"), m.lam[l]);
   for (int l = 0; l <= 3; ++l) s(cat("Δλ_", l, "L DR' -> MS shift"), m.shift[l]);
   s("Mh^2_EFT_0L", m.eft[0]); for (int l = 1; l <= 3; ++l) s(cat("ΔMh^2_EFT_", l, "L"), m.eft[l]);
   s("Mh^2_FO_0L", m.fo[0]);
   for (int l = 1; l <= 3; ++l) s(cat("ΔMh^2_FO_", l, "L"), m.foat[l]);
   for (int l = 1; l <= 3; ++l) s(cat("ΔMh^2_FO_", l, "L"), m.fo[l]);
   check(g, t, e, pr);
   std::map<std::string, std::vector<std::string>> raw; parse(t, &raw);
   // the three-loop quartic coupling with its uncertainty
   const auto& l3 = raw["Δλ_3L"];
   g.require(l3.size() == 1, "one line for the three-loop quartic coupling");
   char* end; const double a = std::strtod(l3[0].c_str(), &end);
   const char* pm = std::strstr(end, "+/-");
   g.require(pm != nullptr, "uncertainty of the three-loop quartic coupling");
   g.require(agree(a, m.lam[3], pr), cat("three-loop quartic coupling: ", a, " vs ", m.lam[3]));
   const double u = std::strtod(pm + 3, &end), ru = std::abs(m.lamXt) + std::abs(m.lamEFT - m.lamH3m);
   g.require(agree(u, ru, pr), cat("uncertainty of the three-loop quartic coupling: ", u, " vs ", ru));
   // name of the hierarchy and of the scheme
   const std::string h = raw["Hierarchy"].at(0), sch = raw["Ren. scheme"].at(0);
   g.require(h.find("(" + o.getH3mHierarchyNotation(m.hierarchy) + ")") != std::string::npos, "name of the hierarchy");
   g.require((sch.find("H3m") != std::string::npos) == (m.ren == 0 || m.ren == 2) && (sch.find("DR'") != std::string::npos) == (m.ren == 1 || m.ren == 3), cat("scheme ", m.ren, " is printed as", sch));
   g.require(t.find(m.isAlphab ? "Mstop" : "Msbottom") == std::string::npos, "masses are labelled by the right particle");
}
