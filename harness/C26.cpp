// C26: the Mathematica interface transfers every value unchanged.
// The interface is compiled against a link that records tokens in memory.
#include "vf.hpp"
#include "results.hpp"
#include "point.hpp"
#include "mathlink_stub/mathlink.h"
#include "mathlink_stub/WolframLibrary.h"
#include "himalaya/LibraryLink/Himalaya_LibraryLink.cpp"
#include <cstdlib>
#include <fstream>
#include <map>
#include <regex>

using vf::Gen; using vf::cat;

static vf::Info info(
   "a request with a complete parameter list which is accepted and whose result is not trivially zero",
   {"Wolfram's headers and kernel are not available: the link is a stand-in which records the tokens put and replays the tokens read",
    "the Mathematica front end (Himalaya_LibraryLink.m) is represented by the list of option values it sends; it is evaluated when it has the form of a list of OptionValue[...] elements"});

namespace {

using namespace himalaya;

struct Request {
   Parameters p;
   double bottom = 0, loop = 3, verbose = 0;
   double MW = -1, MZ = -1, Mt = -1, Mb = -1, Mtau = -1, MSt[2] = {-1, -1}, MSb[2] = {-1, -1}, MStau[2] = {-1, -1}, s2t = -2, s2b = -2, s2tau = -2;
};

using Values = std::vector<std::pair<std::string, double>>;

/// named values in the order of the interface
Values values(const Request& r)
{
   Values v;
   const auto add = [&] (const std::string& n, double x) { v.push_back({n, x}); };
   const auto mat = [&] (const std::string& n, const Eigen::Matrix3d& m) { for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) add(cat(n, "[[", i + 1, ",", k + 1, "]]"), m(i,k)); };
   const auto vec = [&] (const std::string& n, const double* x) { add(n + "[[1]]", x[0]); add(n + "[[2]]", x[1]); };
   const Parameters& p = r.p;
   add("bottom", r.bottom); add("loopOrder", r.loop); add("verbose", r.verbose);
   add("scale", p.scale); add("mu", p.mu); add("g1", p.g1); add("g2", p.g2); add("g3", p.g3); add("vd", p.vd); add("vu", p.vu);
   mat("mq2", p.mq2); mat("md2", p.md2); mat("mu2", p.mu2); mat("ml2", p.ml2); mat("me2", p.me2);
   mat("Au", p.Au); mat("Ad", p.Ad); mat("Ae", p.Ae); mat("Yu", p.Yu); mat("Yd", p.Yd); mat("Ye", p.Ye);
   add("MA", p.MA); add("M1", p.M1); add("M2", p.M2); add("M3", p.MG);
   add("MW", r.MW); add("MZ", r.MZ); add("Mt", r.Mt); add("Mb", r.Mb); add("Mtau", r.Mtau);
   vec("MSt", r.MSt); vec("MSb", r.MSb); vec("MStau", r.MStau);
   add("s2t", r.s2t); add("s2b", r.s2b); add("s2tau", r.s2tau);
   return v;
}

/// the parameters a C++ user would pass
Parameters parameters(const Request& r)
{
   Parameters p = r.p;
   if (r.MW > 0) p.MW = r.MW;
   if (r.MZ > 0) p.MZ = r.MZ;
   if (r.Mt > 0) p.Mt = r.Mt;
   if (r.Mb > 0) p.Mb = r.Mb;
   if (r.Mtau > 0) p.Mtau = r.Mtau;
   const auto sf = [] (const double* m, double s2, Eigen::Vector2d& M, double& S) { if (m[0] > 0 && m[1] > 0 && s2 >= -1 && s2 <= 1) { M << m[0], m[1]; S = s2; } };
   sf(r.MSt, r.s2t, p.MSt, p.s2t); sf(r.MSb, r.s2b, p.MSb, p.s2b); sf(r.MStau, r.s2tau, p.MStau, p.s2tau);
   return p;
}

using Lines = std::vector<std::string>;

struct Capture {
   std::stringstream s; std::streambuf *a, *b;
   Capture() : a(std::cout.rdbuf(s.rdbuf())), b(std::cerr.rdbuf(s.rdbuf())) {}
   ~Capture() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
   Lines lines() { Lines l; std::string x; while (std::getline(s, x)) l.push_back(x); return l; }
};

struct Reply {
   bool failed = false; std::string what;
   std::map<std::string, std::vector<double>> v;
   std::string name;
   Lines info;
};

/// what the C++ interface gives
Reply direct(const Request& r)
{
   Reply o; Capture c;
   const auto four = [] (double a, double b, double x, double y) { return std::vector<double>{a, b, x, y}; };
   const auto mat = [] (const Eigen::Matrix2d& m) { return std::vector<double>{m(0,0), m(0,1), m(1,0), m(1,1)}; };
   const int L = std::max(0, std::min(3, (int)r.loop));
   const bool verbose = r.verbose != 0;
   try {
      Parameters p = parameters(r);
      p.validate(verbose);
      HierarchyObject ho(false);
      std::vector<double> eft(4, 0.), fo(4, 0.), at(4, 0.);
      if (L > 2) {
         HierarchyCalculator hc(p, verbose);
         ho = hc.calculateDMh3L(r.bottom != 0);
         for (int i = 0; i < 4; i++) { eft[i] = ho.getDMh2EFTAt(i); fo[i] = ho.getDMh2FO(i); at[i] = ho.getDMh2FOAt(i); }
      } else {
         mh2_eft::Mh2EFTCalculator e(p);
         eft = {e.getDeltaMh2EFT0Loop(), e.getDeltaMh2EFT1Loop(1, 1), e.getDeltaMh2EFT2Loop(1, 1), 0.};
         double a, b, d;
         std::tie(a, b, d) = mh2_fo::MSSM_mass_eigenstates(p).calculate_Mh2(); fo = {a, b, d, 0.};
         std::tie(a, b, d) = mh2_fo::MSSM_mass_eigenstates(p, true).calculate_Mh2(); at = {a, b, d, 0.};
         for (int i = L + 1; i < 4; i++) eft[i] = fo[i] = at[i] = 0;
      }
      const int h = ho.getSuitableHierarchy();
      o.v["hierarchyID"] = {double(h)}; o.name = ho.getH3mHierarchyNotation(h);
      const Eigen::Vector2d M = ho.getMDRMasses();
      o.v[L > 2 && r.bottom != 0 ? "MsbottomMDRPrime" : "MstopMDRPrime"] = {M(0), M(1)};
      std::vector<double> mh, z1(12, 0.), z2(12, 0.);
      for (int i = 0; i < 4; i++) for (double x : mat(ho.getDMh(i))) mh.push_back(x);
      for (double x : mat(ho.getDMhDRbarPrimeToMDRbarPrimeShift())) z1.push_back(x);
      for (double x : mat(ho.getDMhDRbarPrimeToH3mShift())) z2.push_back(x);
      o.v["Mh2"] = mh; o.v["Mh2ShiftDRbarPrimeToMDRPrime"] = z1; o.v["Mh2ShiftDRbarPrimeToH3m"] = z2;
      o.v["expansionUncertainty"] = four(0, ho.getDMhExpUncertainty(1), ho.getDMhExpUncertainty(2), ho.getDMhExpUncertainty(3));
      o.v["Mh2EFTAt"] = eft; o.v["Mh2FO"] = fo; o.v["Mh2FOAt"] = at;
      o.v["lambda"] = four(ho.getDLambda(0), ho.getDLambda(1), ho.getDLambda(2), ho.getDLambda(3));
      o.v["lambdaUncertainty"] = four(0, 0, 0, ho.getDLambdaUncertainty(3));
      o.v["lambdaShiftDRbarPrimeToMSbar"] = four(ho.getDLambdaDRbarPrimeToMSbarShift(0), ho.getDLambdaDRbarPrimeToMSbarShift(1), ho.getDLambdaDRbarPrimeToMSbarShift(2), ho.getDLambdaDRbarPrimeToMSbarShift(3));
   } catch (const std::exception& e) { o.failed = true; o.what = e.what(); }
   o.info = c.lines();
   return o;
}

/// an expression read from the tokens
struct Expr { MLToken t; std::vector<Expr> a; };

Expr parse(Gen& g, const std::vector<MLToken>& t, std::size_t& i)
{
   g.require(i < t.size(), "the reply is an incomplete expression");
   Expr e; e.t = t[i++];
   if (e.t.kind == MLToken::Function) for (long k = 0; k < e.t.n; k++) e.a.push_back(parse(g, t, i));
   return e;
}

void flatten(const Expr& e, std::vector<double>& v, std::string& shape, int level = 0)
{
   if (e.t.kind == MLToken::Function) { shape += cat("{", e.a.size()); for (const Expr& x : e.a) flatten(x, v, shape, level + 1); shape += "}"; return; }
   if (e.t.kind == MLToken::Array) { for (long d : e.t.dims) shape += cat("{", d); shape += std::string(e.t.dims.size(), '}'); }
   for (double x : e.t.v) v.push_back(x);
}

/// the shape of an expression as nested dimensions
std::vector<long> dims(Gen& g, const Expr& e)
{
   if (e.t.kind == MLToken::Array) return e.t.dims;
   if (e.t.kind != MLToken::Function) return {};
   g.require(e.t.name == "List" && !e.a.empty(), cat("unexpected head ", e.t.name, " in a result"));
   std::vector<long> d = dims(g, e.a[0]);
   for (const Expr& x : e.a) g.require(dims(g, x) == d, "ragged list in a result");
   d.insert(d.begin(), (long)e.a.size());
   return d;
}

std::vector<MLToken> listTokens(const Values& v)
{
   std::vector<MLToken> t(2 + v.size());
   t[0].kind = t[1].kind = MLToken::Function; t[0].name = t[1].name = "List"; t[0].n = 1; t[1].n = v.size();
   for (std::size_t i = 0; i < v.size(); i++) { t[i + 2].kind = MLToken::Real; t[i + 2].v = {v[i].second}; }
   return t;
}

/// the list of used references is printed only once per process
void prime()
{
   static bool done = false;
   if (done) return;
   done = true;
   Parameters p; p.scale = p.mu = p.MA = p.M1 = p.M2 = p.MG = 2000; p.g1 = 0.46; p.g2 = 0.65; p.g3 = 1.05; p.vd = 24.6; p.vu = 244.8; p.Yu(2,2) = 0.86; p.Yd(2,2) = 0.13; p.Ye(2,2) = 0.1;
   for (auto* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2}) *m = 4e6*Eigen::Matrix3d::Identity();
   p.Au(2,2) = 1000;
   Capture c;
   try { HierarchyCalculator(p, true).calculateDMh3L(false); } catch (const std::exception&) {}
}

/// sends the tokens, reads the reply
Reply send(Gen& g, const std::vector<MLToken>& in, int& rc, std::string& printed)
{
   prime();
   MLStubLink link; link.in = in;
   std::streambuf *a = std::cout.rdbuf(), *b = std::cerr.rdbuf();
   { Capture c; rc = HimalayaCalculateDMh3L(nullptr, &link); for (const auto& l : c.lines()) printed += l + "\n"; }
   g.require(std::cout.rdbuf() == a && std::cerr.rdbuf() == b, "the standard output streams are not restored");
   Reply r;
   if (link.out.empty()) { g.require(rc != LIBRARY_NO_ERROR, "success reported without any reply"); r.failed = true; r.what = "<none>"; return r; }
   std::size_t i = 0;
   Expr e = parse(g, link.out, i);
   g.require(i == link.out.size(), cat("the reply has ", link.out.size() - i, " tokens after its end"));
   g.require(link.endPacket <= 1 && (link.endPacket == 0 || link.endAt[0] == link.out.size()), "end of packet in the middle of the reply");
   while (e.t.kind == MLToken::Function && e.t.name == "CompoundExpression") {
      g.require(e.a.size() == 2 && e.a[0].t.kind == MLToken::Function && e.a[0].a.size() == 1 && e.a[0].a[0].t.kind == MLToken::String, "malformed message in the reply");
      const std::string f = e.a[0].t.name, s = e.a[0].a[0].t.name;
      if (f == "HimalayaInfoMessage") r.info.push_back(s);
      else { g.require(f == "HimalayaErrorMessage", cat("unknown message function ", f)); g.require(!r.failed, "two error messages"); r.failed = true; r.what = s; }
      const Expr n = e.a[1]; e = n;
   }
   if (r.failed) { g.require(e.t.kind == MLToken::Symbol && e.t.name == "$Failed", "an error message is not followed by $Failed"); return r; }
   g.require(!(e.t.kind == MLToken::Symbol && e.t.name == "$Failed"), "failure without an error message");
   g.require(rc == LIBRARY_NO_ERROR, "error code in spite of a result");
   g.require(e.t.kind == MLToken::Function && e.t.name == "List", "the result is not a list");
   static const std::map<std::string, std::vector<long>> shape = {
      {"hierarchyID", {}}, {"hierarchyName", {}}, {"MstopMDRPrime", {2}}, {"MsbottomMDRPrime", {2}}, {"Mh2", {4, 2, 2}}, {"Mh2ShiftDRbarPrimeToMDRPrime", {4, 2, 2}}, {"Mh2ShiftDRbarPrimeToH3m", {4, 2, 2}},
      {"expansionUncertainty", {4}}, {"Mh2EFTAt", {4}}, {"Mh2FO", {4}}, {"Mh2FOAt", {4}}, {"lambda", {4}}, {"lambdaUncertainty", {4}}, {"lambdaShiftDRbarPrimeToMSbar", {4}}};
   for (const Expr& x : e.a) {
      g.require(x.t.kind == MLToken::Function && x.t.name == "Rule" && x.a.size() == 2 && x.a[0].t.kind == MLToken::Symbol, "an element of the result is not a rule");
      const std::string n = x.a[0].t.name;
      const auto it = shape.find(n);
      g.require(it != shape.end(), cat("undocumented result ", n));
      g.require(!r.v.count(n) && (n != "hierarchyName" || r.name.empty()), cat("result ", n, " given twice"));
      g.require(dims(g, x.a[1]) == it->second, cat("result ", n, " has a wrong shape"));
      if (n == "hierarchyName") r.name = x.a[1].t.name;
      else { std::string s; std::vector<double> v; flatten(x.a[1], v, s); r.v[n] = v; }
   }
   return r;
}

void compare(Gen& g, const Reply& r, const Reply& d)
{
   g.require(r.failed == d.failed, r.failed ? cat("interface fails (", r.what, "), C++ interface does not") : cat("C++ interface fails (", d.what, "), Mathematica interface does not"));
   const auto join = [] (const Lines& l) { std::string s; for (const auto& x : l) s += x + "\n"; return s; };
   g.require(r.info == d.info, cat("messages differ:\n", join(r.info), "expected:\n", join(d.info)));
   if (r.failed) { g.require(r.what == d.what, cat("error message is \"", r.what, "\" instead of \"", d.what, "\"")); return; }
   g.require(r.name == d.name, cat("hierarchy name ", r.name, " instead of ", d.name));
   for (const auto& x : d.v) {
      const auto it = r.v.find(x.first);
      g.require(it != r.v.end(), cat("result ", x.first, " is missing"));
      for (std::size_t i = 0; i < x.second.size(); i++)
         g.require(res::bitEqual(x.second[i], it->second[i]) || x.second[i] == it->second[i], cat(x.first, " element ", i, " is ", it->second[i], ", C++ interface: ", x.second[i]));
   }
   g.require(r.v.size() == d.v.size(), "additional results");
}

Request request(Gen& g)
{
   Request r;
   r.p = g.coin(0.8) ? pt::make(g).p : pt::makeWide(g, g.coin(0.1));
   Parameters& p = r.p;
   // optional values are passed separately
   const double nan = std::numeric_limits<double>::quiet_NaN();
   p.MW = p.MZ = p.Mt = p.Mb = p.Mtau = p.s2t = p.s2b = p.s2tau = nan; p.MSt.setConstant(nan); p.MSb.setConstant(nan); p.MStau.setConstant(nan);
   p.theta_t = p.theta_b = p.theta_tau = nan;
   // all elements of all matrices different
   if (g.coin(0.7)) {
      for (auto* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2}) for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) (*m)(i,k) += g.uni(0, 1e-3)*(*m)(2,2);
      for (auto* m : {&p.Au, &p.Ad, &p.Ae}) for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) if (i != 2 || k != 2) (*m)(i,k) += g.uni(-1, 1)*100;
      for (auto* m : {&p.Yu, &p.Yd, &p.Ye}) for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) if (i != 2 || k != 2) (*m)(i,k) += g.uni(-1, 1)*1e-2;
   }
   switch (g.below(20)) { // rejected
   case 0: p.mu2(g.below(3), g.below(3)) = -100; break;
   case 1: p.MG = -p.MG; break;
   case 2: p.vu = 0; break;
   case 3: p.vd = nan; break;
   default:;
   }
   r.bottom = g.coin(0.4); r.verbose = g.coin(0.5); r.loop = g.coin(0.6) ? 3 : g.below(4);
   // running masses close to what the couplings give
   const double v = std::hypot(p.vu, p.vd);
   const auto f = [&] (double x) { return g.coin(0.1) ? g.pick({0., -1., nan, -80.}) : x*g.uni(0.9, 1.1); };
   if (g.coin(0.4)) r.MW = f(0.5*p.g2*v);
   if (g.coin(0.4)) r.MZ = f(0.5*v*std::sqrt(0.6*p.g1*p.g1 + p.g2*p.g2));
   if (g.coin(0.4)) r.Mt = f(std::abs(p.Yu(2,2))*p.vu/std::sqrt(2.));
   if (g.coin(0.4)) r.Mb = f(std::abs(p.Yd(2,2))*p.vd/std::sqrt(2.));
   if (g.coin(0.4)) r.Mtau = f(std::abs(p.Ye(2,2))*p.vd/std::sqrt(2.));
   const auto sf = [&] (double* m, double& s2, double a, double b) {
      if (g.coin(0.6)) return;
      m[0] = std::sqrt(std::abs(a))*g.uni(0.8, 1.2); m[1] = std::sqrt(std::abs(b))*g.uni(0.8, 1.2); s2 = g.uni(-1, 1);
      if (g.coin(0.2)) s2 = g.pick({-1., 1., 0., 1.5, -1.5, -2., nan});
      if (g.coin(0.2)) m[g.below(2)] = g.pick({0., -1., -500.});
   };
   sf(r.MSt, r.s2t, p.mq2(2,2), p.mu2(2,2)); sf(r.MSb, r.s2b, p.mq2(2,2), p.md2(2,2)); sf(r.MStau, r.s2tau, p.ml2(2,2), p.me2(2,2));
   return r;
}

void note(Gen& g, const Values& v, const std::string& pre = "") { for (const auto& x : v) g.note(pre + x.first, x.second); }

/// the option values sent by the front end, in its order; empty if the form
/// of the list is not known
std::vector<std::string> frontEnd()
{
   const char* dir = std::getenv("VERIF_REPO_DIR");
   std::ifstream f(std::string(dir ? dir : "/repo") + "/source/himalaya/LibraryLink/Himalaya_LibraryLink.m");
   std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
   // comments
   for (std::size_t i; (i = s.find("(*")) != std::string::npos; ) { const std::size_t j = s.find("*)", i); if (j == std::string::npos) return {}; s.erase(i, j + 2 - i); }
   const std::size_t fn = s.find("HimalayaCalculateDMh3LLibInterface["); if (fn == std::string::npos) return {};
   const std::size_t b = s.find('{', fn); if (b == std::string::npos) return {};
   const std::size_t e = s.find('}', b); if (e == std::string::npos) return {};
   std::string body; for (char c : s.substr(b + 1, e - b - 1)) if (!std::isspace((unsigned char)c)) body += c;
   std::vector<std::string> items; std::string cur; int depth = 0;
   for (char c : body + ",") { if (c == ',' && !depth) { items.push_back(cur); cur.clear(); continue; } depth += (c == '[') - (c == ']'); cur += c; }
   static const std::regex re("(?:Boole\\[)?OptionValue\\[(\\w+)\\](\\[\\[[0-9,]+\\]\\])?\\]?");
   std::vector<std::string> names;
   for (const auto& i : items) { std::smatch m; if (!std::regex_match(i, m, re)) return {}; names.push_back(m[1].str() + m[2].str()); }
   return names;
}

} // anonymous namespace

VF_SUB("transfer", 36000, 600000)
{
   const Request r = request(g); const Values v = values(r);
   note(g, v);
   int rc; std::string printed;
   const Reply a = send(g, listTokens(v), rc, printed); const Reply d = direct(r);
   g.label(d.failed ? "rejected" : cat(r.loop, " loops, ", r.bottom ? "bottom" : "top"));
   if (!d.failed) g.nontrivial();
   compare(g, a, d);
   g.require(printed.empty(), cat("text printed instead of being sent as a message: ", printed));
}

VF_SUB("front end", 18000, 300000)
{
   static const std::vector<std::string> names = frontEnd();
   if (names.empty()) { g.label("form of the front end not known"); g.discard(); }
   const Request r = request(g); const Values v = values(r);
   note(g, v);
   std::map<std::string, double> byName(v.begin(), v.end());
   Values w;
   for (const auto& n : names) { g.require(byName.count(n) != 0, cat("the front end sends the unknown option value ", n)); w.push_back({n, byName[n]}); }
   int rc; std::string printed;
   const Reply a = send(g, listTokens(w), rc, printed); const Reply d = direct(r);
   if (!d.failed) g.nontrivial();
   compare(g, a, d);
}

VF_SUB("histories with malformed requests", 12000, 200000)
{
   const int n = 2 + g.below(4);
   for (int k = 0; k < n; k++) {
      Request r = request(g); Values v = values(r);
      std::vector<MLToken> t = listTokens(v);
      int bad = g.below(8);
      static const char* what[] = {"no list of arguments", "wrong number of arguments", "argument is not a list", "too few values", "too many values", "value is not a number", "", ""};
      if (*what[bad]) g.label(what[bad]);
      g.note(cat("request ", k), *what[bad] ? what[bad] : "well-formed");
      switch (bad) {
      case 0: t[0].name = g.coin() ? "Foo" : "list"; break;
      case 1: t[0].n = g.pick({0., 2., 3.}); break;
      case 2: t[1].name = "Foo"; break;
      case 3: { const int m = 1 + g.below(v.size()); v.resize(v.size() - m); t = listTokens(v); break; }
      case 4: { const int m = 1 + g.below(10); for (int i = 0; i < m; i++) v.push_back({"extra", 1.}); t = listTokens(v); break; }
      case 5: { MLToken& x = t[2 + g.below(v.size())]; x.kind = g.coin() ? MLToken::Symbol : MLToken::String; x.name = "x"; x.v.clear(); break; }
      default: note(g, v, cat("request ", k, ": "));
      }
      int rc; std::string printed;
      const Reply a = send(g, t, rc, printed);
      if (*what[bad]) g.require(a.failed, cat("malformed request (", what[bad], ") accepted"));
      else { const Reply d = direct(r); if (!d.failed && k > 0) g.nontrivial(); compare(g, a, d); }
   }
}
