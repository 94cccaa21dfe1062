// C27, second unit: the expansion classes themselves, with truncation flags.
// (Uses internal headers; left out by check.py if these change.)
#include "vf.hpp"
#include "ref/flags.hpp"
#include <cmath>
#include <vector>
#include "himalaya/hierarchies/H3.hpp"
#include "himalaya/hierarchies/H32q2g.hpp"
#include "himalaya/hierarchies/H3q22g.hpp"
#include "himalaya/hierarchies/H4.hpp"
#include "himalaya/hierarchies/H5.hpp"
#include "himalaya/hierarchies/H5g1.hpp"
#include "himalaya/hierarchies/H6.hpp"
#include "himalaya/hierarchies/H6b.hpp"
#include "himalaya/hierarchies/H6b2qg2.hpp"
#include "himalaya/hierarchies/H6bq22g.hpp"
#include "himalaya/hierarchies/H6bq2g2.hpp"
#include "himalaya/hierarchies/H6g2.hpp"
#include "himalaya/hierarchies/H9.hpp"
#include "himalaya/hierarchies/H9q2.hpp"
namespace lib = himalaya::hierarchies;
#include "ref/hierarchies/H3.hpp"
#include "ref/hierarchies/H32q2g.hpp"
#include "ref/hierarchies/H3q22g.hpp"
#include "ref/hierarchies/H4.hpp"
#include "ref/hierarchies/H5.hpp"
#include "ref/hierarchies/H5g1.hpp"
#include "ref/hierarchies/H6.hpp"
#include "ref/hierarchies/H6b.hpp"
#include "ref/hierarchies/H6b2qg2.hpp"
#include "ref/hierarchies/H6bq22g.hpp"
#include "ref/hierarchies/H6bq2g2.hpp"
#include "ref/hierarchies/H6g2.hpp"
#include "ref/hierarchies/H9.hpp"
#include "ref/hierarchies/H9q2.hpp"
namespace ref = vref::hierarchies;
using namespace vf;
using R = long double;

namespace {
enum { a, b, g1, d, qq, qd, lf, l1, l2, lq, lg, G, F, M1, M2, Q, mu, s, A, lS, S, NX };
struct Args { double x[NX]; std::array<int, 12> fl; int mdr, o1, o2, o3; };

template <class T, class H> void get(const H& k, std::vector<T>& v)
{
   v = {k.getS1(), k.getS12(), k.getS2(), k.calc_coef_at_as2_no_sm_logs_log0(), k.calc_coef_at_as2_no_sm_logs_log1(),
        k.calc_coef_at_as2_no_sm_logs_log2(), k.calc_coef_at_as2_no_sm_logs_log3()};
}

void eval(int h, const Args& q, std::vector<double>& v, std::vector<R>& r)
{
   const double* x = q.x; const int m = q.mdr, o = q.o1, t = q.o2, th = q.o3; const auto& f = q.fl;
   switch (h) {
   case 0: get(lib::H3(f, x[a], x[b], x[g1], x[d], x[qq], x[lf], x[l1], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H3(f, x[a], x[b], x[g1], x[d], x[qq], x[lf], x[l1], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 1: get(lib::H32q2g(f, x[a], x[b], x[g1], x[d], x[qq], x[lf], x[l1], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), v); get(ref::H32q2g(f, x[a], x[b], x[g1], x[d], x[qq], x[lf], x[l1], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), r); break;
   case 2: get(lib::H3q22g(f, x[a], x[b], x[g1], x[d], x[qq], x[lf], x[l1], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H3q22g(f, x[a], x[b], x[g1], x[d], x[qq], x[lf], x[l1], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 3: get(lib::H4(f, x[a], x[A], x[b], x[lf], x[lq], x[lS], x[F], x[S], x[Q], m, o, t, th), v); get(ref::H4(f, x[a], x[A], x[b], x[lf], x[lq], x[lS], x[F], x[S], x[Q], m, o, t, th), r); break;
   case 4: get(lib::H5(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H5(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 5: get(lib::H5g1(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H5g1(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 6: get(lib::H6(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H6(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 7: get(lib::H6b(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), v); get(ref::H6b(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), r); break;
   case 8: get(lib::H6b2qg2(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[G], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), v); get(ref::H6b2qg2(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[G], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), r); break;
   case 9: get(lib::H6bq22g(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H6bq22g(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 10: get(lib::H6bq2g2(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H6bq2g2(f, x[a], x[b], x[g1], x[qd], x[lf], x[l1], x[l2], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 11: get(lib::H6g2(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H6g2(f, x[a], x[b], x[g1], x[lf], x[l1], x[l2], x[lq], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   case 12: get(lib::H9(f, x[a], x[b], x[d], x[qq], x[lf], x[lg], x[l1], x[G], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), v); get(ref::H9(f, x[a], x[b], x[d], x[qq], x[lf], x[lg], x[l1], x[G], x[F], x[M1], x[M2], x[mu], x[s], m, o, t, th), r); break;
   case 13: get(lib::H9q2(f, x[a], x[b], x[d], x[qq], x[lf], x[lg], x[l1], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), v); get(ref::H9q2(f, x[a], x[b], x[d], x[qq], x[lf], x[lg], x[l1], x[G], x[F], x[M1], x[M2], x[Q], x[mu], x[s], m, o, t, th), r); break;
   }
}

const char* names[] = {"h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"};
const char* what[] = {"S1", "S12", "S2", "log0", "log1", "log2", "log3"};
}

VF_SUB("expansion classes", 40000, 900000)
{
   const int h = g.below(14);
   Args q; double* x = q.x;
   const double M = g.logu(200, 1e4);
   x[a] = g.logu(1e-3, 3e-2); x[b] = std::atan(g.logu(1, 60)); x[M1] = M*g.uni(0.3, 2); x[M2] = x[M1]*g.uni(1.01, 3); x[G] = M*g.uni(0.2, 3); x[Q] = M*g.uni(0.3, 4);
   x[F] = g.coin(0.8) ? g.uni(100, 200) : g.uni(1, 5); x[mu] = g.sign()*M*g.logu(0.05, 3); x[s] = g.uni(-1, 1); x[A] = M*g.uni(-3, 3); x[S] = M*g.uni(0.3, 2);
   const double q2 = M*g.logu(0.3, 3);
   const auto lm = [&](double m) { return 2*std::log(q2/m); };
   x[lf] = lm(x[F]); x[l1] = lm(x[M1]); x[l2] = lm(x[M2]); x[lq] = lm(x[Q]); x[lg] = lm(x[G]); x[lS] = lm(x[S]);
   x[d] = M*M*g.uni(-0.5, 0.5); x[qq] = M*M*g.uni(-0.5, 0.5); x[g1] = M*g.uni(-0.5, 0.5); x[qd] = M*g.uni(-0.5, 0.5);
   const int loops = 1 + g.below(7); q.o1 = loops & 1; q.o2 = loops >> 1 & 1; q.o3 = loops >> 2; q.mdr = g.coin(0.3);
   const bool all = g.coin(0.3); const int one = g.below(12);
   for (int i = 0; i < 12; ++i) q.fl[i] = all ? 1 : g.coin(0.2) ? 0 : i == one ? 0 : 1;
   g.label(names[h]); g.note("class", names[h]); g.note("loops", loops); g.note("MDR", q.mdr); { std::string fs; for (int f : q.fl) fs += std::to_string(f); g.note("truncation flags", fs); }
   { std::string xs; for (double y : q.x) xs += str(y) + " "; g.note("arguments (a b g1 d qq qd lf l1 l2 lq lg G F M1 M2 Q mu s A lS S)", xs); }
   std::vector<double> v0, v; std::vector<R> r0, r;
   eval(h, q, v0, r0);
   std::vector<double> noise(7, 0);
   for (int k = 0; k < 7; ++k) {
      Args y = q; for (double& z : y.x) z *= 1 + 1e-10*g.uni(-1, 1);
      eval(h, y, v, r);
      for (int i = 0; i < 7; ++i) noise[i] = std::max(noise[i], std::abs((double)((v[i] - r[i]) - (v0[i] - r0[i]))));
   }
   bool nt = false;
   for (int i = 0; i < 7; ++i) {
      const double dd = std::abs((double)(v0[i] - r0[i])), tol = 300*noise[i] + 2e-12*std::abs((double)r0[i]) + 1e-250;
      if (!(dd <= tol)) g.fail(cat(what[i], " = ", v0[i], ", published expression gives ", (double)r0[i], " (tolerance ", tol, ")"));
      if (v0[i] != 0 && tol < 1e-6*std::abs(v0[i])) nt = true;
   }
   if (nt) g.nontrivial();
}
