// Property-based testing framework: seeded choice sequences, forked workers,
// crash/hang isolation, shrinking on the choice sequence, replay files.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace vf {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

std::uint64_t splitmix(std::uint64_t& s);

/// Source of all random choices of one case. Every choice is a double in
/// [0,1) where 0 is the simplest one, so a case is its choice vector.
class Gen {
public:
   explicit Gen(std::uint64_t seed) : state_(seed) {}
   explicit Gen(std::vector<double> c) : replay_(true), choices_(std::move(c)) {}

   double u();                                  ///< raw choice in [0,1)
   int below(int n) { return n <= 1 ? 0 : static_cast<int>(u()*n); }
   int range(int a, int b) { return a + below(b - a + 1); } ///< inclusive
   bool coin(double p = 0.5) { return u() >= 1 - p; }       ///< simplest: false
   double uni(double a, double b) { return a + (b - a)*u(); }
   double logu(double a, double b) { const double t = u(); return t == 0 ? a : std::exp(std::log(a) + t*(std::log(b) - std::log(a))); }
   double sign() { return coin() ? -1. : 1.; }
   double pick(std::initializer_list<double> l) { return l.begin()[below((int)l.size())]; }
   std::uint64_t bits();

   void nontrivial() { nontrivial_ = true; }
   void label(const std::string& s) { labels_.push_back(s); }
   template <class T> void note(const std::string& k, const T& v) {
      std::ostringstream o; o.precision(17); o << v; notes_.emplace_back(k, o.str());
   }
   [[noreturn]] void discard() { throw Discard(); }
   [[noreturn]] void fail(const std::string& msg) { throw Fail(msg); }
   void require(bool c, const std::string& msg) { if (!c) throw Fail(msg); }
   /// report a defect listed in known_findings.txt (counted, not raised);
   /// raised as a failure if it is not listed.
   void known(const std::string& id, const std::string& msg);
   /// record a measured discrepancy relative to its tolerance (for evidence)
   void measure(const std::string& what, double ratio);

   // --- used by the runner
   const std::vector<double>& choices() const { return choices_; }
   bool isNontrivial() const { return nontrivial_; }
   const std::vector<std::string>& labels() const { return labels_; }
   const std::vector<std::pair<std::string,std::string>>& notes() const { return notes_; }
private:
   std::uint64_t state_{};
   bool replay_{false};
   std::vector<double> choices_;
   std::size_t pos_{0};
   bool nontrivial_{false};
   std::vector<std::string> labels_;
   std::vector<std::pair<std::string,std::string>> notes_;
};

using Fn = std::function<void(Gen&)>;

/// registers a sub-property with its case counts
struct Sub {
   std::string name; long quick, thorough; Fn fn;
};
struct Reg { Reg(const char* name, long quick, long thorough, Fn fn); };

/// sets the non-triviality rule and assumptions texts printed to evidence
struct Info { Info(const char* rule, std::initializer_list<const char*> assumptions = {}); };

#define VF_CAT2(a,b) a##b
#define VF_CAT(a,b) VF_CAT2(a,b)
#define VF_SUB(name, quick, thorough) \
   static void VF_CAT(vf_fn_,__LINE__)(vf::Gen& g); \
   static vf::Reg VF_CAT(vf_reg_,__LINE__)(name, quick, thorough, VF_CAT(vf_fn_,__LINE__)); \
   static void VF_CAT(vf_fn_,__LINE__)(vf::Gen& g)

template <class T> std::string str(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
inline std::string cat() { return {}; }
template <class T, class... R> std::string cat(const T& t, const R&... r) { return str(t) + cat(r...); }

/// requires |a-b| <= rel*scale (+abs); NaN fails. Both NaN fails, too.
void close(Gen& g, const std::string& what, double a, double b, double tol);

extern bool thorough_tier;

} // namespace vf
