// C14: one- and two-loop fixed-order corrections, momentum dependence and correction selection.
#include "oneloop.hpp"
#include "point.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "himalaya/misc/Logger.hpp"
#include <iostream>
#include <vector>

using vf::cat; using vf::Gen;
using himalaya::Parameters;
using namespace himalaya::mh2_fo;
namespace CO = himalaya::CouplingOrders;
using ol::R;
typedef Eigen::Matrix2d M2;

static vf::Info info(
   "a case is an accepted point without tachyons together with a momentum, a selection of corrections or an iteration setting; non-trivial: the one-loop correction is finite, of the size of at least 1 GeV^2 and (where a momentum enters) the momentum is not zero",
   {"oracle: generic one-loop self-energy and tadpole formula in Feynman gauge, evaluated in long double with the field-dependent mass matrices of the model and their derivatives (no vertex of the library is used); one-loop integrals are the library's own (checked by C17)",
    "two-loop parts are the mh2l routines (checked by C22) called directly with the gaugeless masses",
    "tolerance 1e-11 of the sum of the magnitudes of all terms plus, next to thresholds, 300 times the change of the oracle when the momentum changes by 1e-12"});

namespace {
struct Point { Parameters p; ol::Input x; };

Point make(Gen& g)
{
   Parameters p = pt::makeWide(g, false);
   // (nearly) massless vector and Higgs bosons: infrared divergences
   for (double* x : {&p.g1, &p.g2}) if (*x != 0) *x = std::max(*x, 1e-3);
   if (p.MA < 1) p.MA = 0;
   pt::note(g, p);
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   return {p, ol::Input(p)};
}

double momentum(Gen& g, const Parameters& p, const ol::Result& r)
{
   switch (g.below(7)) {
   case 0: return 0;
   case 1: return (double)r.mh2[0];
   case 2: return (double)r.mh2[1];
   case 3: return g.uni(0, 3e4);
   case 4: return g.logu(1e-6, 1e10);
   case 5: { const double a[] = {p.MSt(0), p.MSt(1), p.MSb(0), p.Mt, p.MZ, p.MW, p.MA, std::abs(p.mu), std::abs(p.M1)}; const double s = a[g.below(9)] + a[g.below(9)]; return s*s*(1 + (g.coin() ? 0 : g.sign()*g.logu(1e-12, 0.1))); }
   default: return g.logu(1, 1e8);
   }
}

void compare(Gen& g, const char* what, const M2& m, const ol::Result& r, const ol::Input& x, double p2 = 0, R prec = 1e-11L)
{
   if (!(m(0,1) == m(1,0))) g.fail(cat(what, ": not symmetric: ", m(0,1), " ", m(1,0)));
   for (int i = 0; i < 2; ++i) for (int j = i; j < 2; ++j) {
      R tol = prec*r.s[i][j] + 1e-16L*r.norm();
      const R d = std::abs(m(i,j) - r.d[i][j]);
      if (!(d <= tol)) {
         R n = 0;
         for (R e : {1e-12L, -1e-12L, 1e-13L, -1e-13L, 1e-14L, -1e-14L}) n = std::max(n, std::abs(ol::Calc(x, p2*(1 + e)).run().d[i][j] - r.d[i][j]));
         for (int k = 0; k < 12; ++k) { ol::Calc s(x, p2); s.shake = k < 4 ? 1e-15L : k < 8 ? 1e-14L : 1e-13L; s.pattern = 77*k + 1; n = std::max(n, std::abs(s.run().d[i][j] - r.d[i][j])); }
         tol += (p2 == 0 ? 30 : 300)*n; if (d <= tol) g.label("next to a threshold or a massless state");
      }
      g.measure(what, (double)(d/(tol + 1e-300L)));
      if (!(d <= tol)) g.fail(cat(what, " (", i, ",", j, ") is ", m(i,j), ", expected ", (double)r.d[i][j], " (largest magnitude ", (double)r.s[i][j], ", momentum squared ", p2, ")"));
   }
}

/// Higgs mass matrix at tree level
M2 tree(const ol::Input& x)
{
   const R v2 = ol::sq(x.vu) + ol::sq(x.vd), a = x.MA*x.MA/v2, z = (x.g1*x.g1*3/5 + x.g2*x.g2)/4;
   M2 m; m << (double)(a*x.vu*x.vu + z*x.vd*x.vd), (double)(-(a + z)*x.vu*x.vd), (double)(-(a + z)*x.vu*x.vd), (double)(a*x.vd*x.vd + z*x.vu*x.vu);
   return m;
}

struct Eig { R l[2], c, s; }; ///< eigenvalues; (c,s) is the eigenvector of the larger one
Eig eig(const M2& m)
{
   const R D = (R)m(0,0) - m(1,1), T = (R)m(0,0) + m(1,1), r = std::sqrt(D*D + 4*(R)m(0,1)*m(0,1)), th = 0.5L*std::atan2(2*(R)m(0,1), D);
   return {{(T - r)/2, (T + r)/2}, std::cos(th), std::sin(th)};
}
/// first- and second-order change of the smaller eigenvalue
R first(const Eig& e, const M2& m) { return e.s*e.s*m(0,0) - 2*e.s*e.c*m(0,1) + e.c*e.c*m(1,1); }
R mixed(const Eig& e, const M2& m) { return -e.s*e.c*m(0,0) + (e.c*e.c - e.s*e.s)*m(0,1) + e.s*e.c*m(1,1); }

M2 mat(const ol::Result& r) { M2 m; m << (double)r.d[0][0], (double)r.d[0][1], (double)r.d[1][0], (double)r.d[1][1]; return m; }

struct Silence { std::streambuf* b; Silence() : b(std::cerr.rdbuf(nullptr)) {} ~Silence() { std::cerr.rdbuf(b); } };
} // namespace

VF_SUB("self energy", 150000, 6000000)
{
   const Point pt = make(g);
   const ol::Result r0 = ol::run(pt.x, 0);
   if (r0.tachyonic) g.discard();
   const double p2 = momentum(g, pt.p, r0); g.note("p2", p2);
   const ol::Result r = ol::run(pt.x, p2);
   const MSSM_mass_eigenstates me(pt.p);
   compare(g, "delta_mh2_1loop", me.delta_mh2_1loop(p2), r, pt.x, p2);
   if (p2 != 0 && r.norm() > 1) g.nontrivial();
}

VF_SUB("gaugeless", 100000, 4000000)
{
   const Point pt = make(g);
   const ol::Input x = ol::gaugeless(pt.x);
   const ol::Result r = ol::run(x, 0), d = ol::deriv(x);
   if (r.tachyonic) g.discard();
   const MSSM_mass_eigenstates me(pt.p);
   compare(g, "delta_mh2_1loop_gaugeless", me.delta_mh2_1loop_gaugeless(), r, x);
   compare(g, "delta_mh2_1loop_gaugeless_deriv", me.delta_mh2_1loop_gaugeless_deriv(), d, x, 0, 2e-9L);
   // the general expression without gauge couplings
   Parameters q = pt.p; q.g1 = q.g2 = 0;
   const MSSM_mass_eigenstates mg(q);
   const M2 a = mg.delta_mh2_1loop(0);
   compare(g, "delta_mh2_1loop(0) without gauge couplings", a, r, x);
   // numerical derivative with respect to the momentum (scale: mass of the lightest fermion)
   if (g.coin(0.7)) q.Yd(2,2) = q.Ye(2,2) = 0;
   q.Mb = q.Mtau = NAN; q.MW = q.MZ = NAN; q.MSt.setConstant(NAN); q.s2t = q.theta_t = NAN; q.MSb.setConstant(NAN); q.MStau.setConstant(NAN); q.s2b = q.s2tau = q.theta_b = q.theta_tau = NAN;
   try { q.validate(false); } catch (const std::exception&) { g.discard(); }
   const MSSM_mass_eigenstates mn(q);
   const ol::Result dq = ol::deriv(ol::Input(q));
   if (dq.tachyonic) g.discard();
   R lo = 1e300L; for (double m : {pt.p.Mt, q.Mb, q.Mtau, q.MSt(0), q.MSb(0), q.MStau(0)}) if (m > 0) lo = std::min(lo, (R)m*m);
   if (lo < 1e250L) {
      const double h = 0.05*(double)lo;
      const M2 f0 = mn.delta_mh2_1loop(0), f1 = mn.delta_mh2_1loop(h/2), f2 = mn.delta_mh2_1loop(h), f3 = mn.delta_mh2_1loop(1.5*h), f4 = mn.delta_mh2_1loop(2*h), nd = mn.delta_mh2_1loop_gaugeless_deriv();
      for (int i = 0; i < 2; ++i) for (int j = i; j < 2; ++j) {
         const R num = (-25*(R)f0(i,j) + 48*(R)f1(i,j) - 36*(R)f2(i,j) + 16*(R)f3(i,j) - 3*(R)f4(i,j))/(6*h), tol = 1e-4L*dq.s[i][j] + 1e-7L*r.norm()/h;
         g.measure("numerical derivative", (double)(std::abs(num - nd(i,j))/tol));
         g.require(std::abs(num - nd(i,j)) <= tol, cat("derivative (", i, ",", j, ") is ", nd(i,j), ", numerically ", (double)num));
      }
   }
   if (r.norm() > 1) g.nontrivial();
}

VF_SUB("only top", 80000, 3000000)
{
   const Point pt = make(g);
   const ol::Input x = ol::onlyTop(pt.x);
   const ol::Result r0 = ol::run(x, 0);
   if (r0.tachyonic || ol::run(ol::gaugeless(pt.x), 0).tachyonic) g.discard();
   const double p2 = g.coin() ? 0 : momentum(g, pt.p, r0); g.note("p2", p2);
   const MSSM_mass_eigenstates me(pt.p, true);
   const ol::Result r = ol::run(x, p2);
   compare(g, "delta_mh2_1loop (only top)", me.delta_mh2_1loop(p2), r, x, p2);
   compare(g, "delta_mh2_1loop_gaugeless (only top)", me.delta_mh2_1loop_gaugeless(), r0, x);
   compare(g, "delta_mh2_1loop_gaugeless_deriv (only top)", me.delta_mh2_1loop_gaugeless_deriv(), ol::deriv(x), x, 0, 2e-9L);
   const M2 t = me.get_mass_matrix_hh(), u = me.get_mass_matrix_hh_gaugeless(), e = tree(x);
   const double s = 1e-14*e.cwiseAbs().maxCoeff();
   g.require((t - e).cwiseAbs().maxCoeff() <= s && (u - e).cwiseAbs().maxCoeff() <= s, "tree-level mass matrix (only top) depends on gauge couplings");
   if (r0.norm() > 1) g.nontrivial();
}

/// two-loop parts called directly (O(at^2) for mb -> 0: at the smallest stable value); index: 0 at*as, 1 ab*as, 2 at^2 + ab^2 + at*ab, 3 atau^2, 4 ab*atau
static std::vector<M2> parts(const Parameters& p, bool at)
{
   using namespace himalaya::mh2l;
   Parameters gl = p; gl.g1 = gl.g2 = 0;
   const MSSM_spectrum sp(gl); // fermion masses: Yukawa coupling times vacuum expectation value (C15)
   const double mt = sp.MFt, mb = sp.MFb, ml = sp.MFtau, tb = p.vu/p.vd, v2 = p.vu*p.vu + p.vd*p.vd, q2 = p.scale*p.scale, mA2 = p.MA*p.MA;
   const auto sq = [](double x) { return x*x; };
   const double st = std::sin(p.theta_t), ct = std::cos(p.theta_t), sb = std::sin(p.theta_b), cb = std::cos(p.theta_b), sl = std::sin(p.theta_tau), cl = std::cos(p.theta_tau);
   const double t1 = sq(p.MSt(0)), t2 = sq(p.MSt(1)), b1 = sq(p.MSb(0)), b2 = sq(p.MSb(1)), l1 = sq(p.MStau(0)), l2 = sq(p.MStau(1));
   return {delta_mh2_2loop_at_as(mt*mt, p.MG, t1, t2, st, ct, q2, -p.mu, tb, v2, p.g3, 1),
           delta_mh2_2loop_ab_as(mb*mb, p.MG, b1, b2, sb, cb, q2, -p.mu, 1/tb, v2, p.g3, 1),
           delta_mh2_2loop_at_at(mt*mt, std::max(mb*mb, 1e-4), mA2, t1, t2, b1, b2, st, ct, sb, cb, q2, -p.mu, tb, v2, 1, at),
           delta_mh2_2loop_atau_atau(ml*ml, mA2, p.ml2(2,2), l1, l2, sl, cl, q2, -p.mu, tb, v2, 1),
           delta_mh2_2loop_ab_atau(ml*ml, mb*mb, l1, l2, b1, b2, sl, cl, sb, cb, q2, -p.mu, tb, v2, 1)};
}

static Parameters jitter(Gen& g, Parameters p, double e)
{
   const auto j = [&](double& x) { x *= 1 + e*g.uni(-1, 1); };
   for (double* x : {&p.mu, &p.g3, &p.vu, &p.vd, &p.MG, &p.MA, &p.scale, &p.theta_t, &p.theta_b, &p.theta_tau, &p.ml2(2,2), &p.Yu(2,2), &p.Yd(2,2), &p.Ye(2,2)}) j(*x);
   for (int i = 0; i < 2; ++i) { j(p.MSt(i)); j(p.MSb(i)); j(p.MStau(i)); }
   return p;
}

VF_SUB("two-loop selection", 60000, 2000000)
{
   const Point pt = make(g); const Parameters& p = pt.p;
   const bool at = g.coin(0.3);
   if (p.MA < 1 || p.MG < 1 || std::abs(p.mu) < 1e-3) g.discard();
   if (ol::run(pt.x, 0).tachyonic || ol::run(ol::gaugeless(pt.x), 0).tachyonic || ol::run(ol::onlyTop(pt.x), 0).tachyonic) g.discard();
   Silence quiet;
   MSSM_mass_eigenstates me(p, at);
   // defaults
   bool on[5] = {true, p.Yd(2,2) != 0 && !at, true, !at, !at};
   const double eps = 1e-10;
   if (std::abs(p.Mt) < eps) on[2] = false;
   if (std::abs(p.Mb) < eps) on[1] = on[4] = false;
   if (std::abs(p.Mtau) < eps) on[3] = on[4] = false;
   std::string sel;
   if (!at || g.coin()) for (int i = 0; i < 5; ++i) if (g.coin(0.6)) {
      static const CO::CouplingOrders f[] = {CO::G32YT4, CO::G32YB4, CO::YT6, CO::YTAU6, CO::YTAU2YB4};
      if (i > 2 && at) continue;
      const bool b = g.coin() && (i == 0 || (p.Yd(2,2) != 0 && p.Ye(2,2) != 0)); on[i] = b; me.set_correction(f[i], b);
      if (i == 4) me.set_correction(CO::YTAU4YB2, b);
   } else if (g.coin(0.1)) me.set_correction(g.coin() ? CO::G12G22 : CO::YB6, g.below(2)); // without a correction of its own
   for (bool b : on) sel += b ? '1' : '0';
   g.note("selection", sel); g.note("only top", at);
   const int mi = g.below(3); g.note("momentum iteration", mi);
   const double prec = g.logu(1e-10, 0.1); const int maxit = g.range(1, 30);
   me.set_mom_it(mi == 0 ? Momentum_iteration::pert : mi == 1 ? Momentum_iteration::off : Momentum_iteration::num, prec, maxit);
   const M2 m = me.delta_mh2_2loop(), mom = mi == 0 ? me.delta_mh2_2loop_mom_it_pert() : mi == 1 ? M2(M2::Zero()) : me.delta_mh2_2loop_mom_it_num(prec, maxit);
   const auto ps = parts(p, at);
   M2 sum = mom, mag = mom.cwiseAbs();
   for (int i = 0; i < 5; ++i) if (on[i]) { sum += ps[i]; mag += ps[i].cwiseAbs(); }
   if (!sum.allFinite()) { g.require(!m.allFinite(), "the two-loop correction is finite although one of its parts is not"); g.discard(); }
   double tol = 1e-10*mag.maxCoeff();
   if (!((m - sum).cwiseAbs().maxCoeff() <= tol)) {
      double n = 0;
      for (int k = 0; k < 32; ++k) { const auto q = parts(jitter(g, p, k % 2 ? 1e-13 : 3e-16), at); M2 t = mom; for (int i = 0; i < 5; ++i) if (on[i]) t += q[i]; n = std::max(n, (t - sum).cwiseAbs().maxCoeff()); }
      tol += 100*n; g.label("ill-conditioned point");
   }
   g.measure("delta_mh2_2loop", (m - sum).cwiseAbs().maxCoeff()/(tol + 1e-300));
   if (!((m - sum).cwiseAbs().maxCoeff() <= tol)) g.fail(cat("two-loop correction for selection ", sel, (at ? " (only top)" : ""), " is\n", m, "\nexpected\n", sum));
   // reported corrections
   const bool num = g.coin(0.3); if (num) me.set_diagonalization(Diagonalization::num);
   const auto r = me.calculate_Mh2();
   const ol::Input x = at ? ol::onlyTop(pt.x) : pt.x;
   const M2 m0 = tree(x), m0g = tree(ol::gaugeless(x));
   const Eig e0 = eig(m0);
   const ol::Result r1 = ol::run(x, (double)e0.l[0]);
   const M2 m1 = mat(r1), m1g = mat(ol::run(ol::gaugeless(x), 0));
   const double n0 = m0.norm(), noise = 1e-14*n0 + 1e-11*(double)r1.norm() + tol;
   const auto near = [&](const char* w, R a, R b, R t) { g.measure(w, (double)(std::abs(a - b)/t)); if (!(std::abs(a - b) <= t)) g.fail(cat(w, (num ? " (numerical diagonalisation)" : ""), (at ? " (only top)" : ""), " is ", (double)a, ", expected ", (double)b)); };
   // sensitivity of the one-loop correction to rounding of the external momentum (a squared mass)
   R sens = 0; for (R e : {1e-15L, -1e-15L, 1e-14L, -1e-14L}) { const ol::Result q = ol::Calc(x, e0.l[0] + e*n0).run(); for (int i = 0; i < 2; ++i) for (int j = i; j < 2; ++j) sens = std::max(sens, std::abs(q.d[i][j] - r1.d[i][j])); }
   const R t1 = noise + 30*sens;
   near("tree-level squared Higgs mass", std::get<0>(r), e0.l[0], 1e-13*n0);
   if (!num) {
      near("one-loop correction", std::get<1>(r), first(e0, m1), t1 + 1e-13L*n0/std::max(e0.l[1] - e0.l[0], (R)1e-300)*m1.norm());
      const Eig eg = eig(m0g); const R b = mixed(eg, m1g), d = eg.l[0] - eg.l[1];
      near("two-loop correction", std::get<2>(r), first(eg, sum) + b*b/d, noise + 1e-11L*(sum.norm() + 10*m1g.squaredNorm()/std::abs(d)));
   } else {
      const R a1 = eig(m0 + m1).l[0], a2 = eig(m0 + m1 + sum).l[0];
      // eigenvalues are ordered by magnitude in the library
      const auto pick = [](const M2& q) { const Eig e = eig(q); return std::abs(e.l[0]) <= std::abs(e.l[1]) ? e.l[0] : e.l[1]; };
      (void)a1; (void)a2;
      const R x1 = pick(m0 + m1), x2 = pick(m0 + m1 + sum);
      near("one-loop correction", std::get<1>(r), x1 - e0.l[0], 10*t1 + 1e-12L*n0); near("two-loop correction", std::get<2>(r), x2 - x1, 10*t1 + 1e-12L*n0);
      g.label("numerical diagonalisation");
   }
   if (sum.norm() > 1e-3) g.nontrivial();
   if (at) g.label("only top");
}

VF_SUB("momentum iteration", 40000, 1500000)
{
   const Point pt = make(g); const Parameters& p = pt.p;
   const bool at = g.coin(0.2);
   const ol::Input x = at ? ol::onlyTop(pt.x) : pt.x;
   if (ol::run(pt.x, 0).tachyonic || ol::run(ol::onlyTop(pt.x), 0).tachyonic || p.MA < 1e-3) g.discard();
   Silence quiet;
   MSSM_mass_eigenstates me(p, at);
   // perturbative
   {
      const ol::Result r = ol::run(ol::gaugeless(x), 0), d = ol::deriv(x);
      const M2 m1 = mat(r); const R l = first(eig(tree(ol::gaugeless(x))), m1);
      const M2 m = me.delta_mh2_2loop_mom_it_pert();
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
         const R e = d.d[i][j]*l, tol = 2e-9L*(r.norm()*d.norm() + std::abs(e));
         g.measure("perturbative iteration", (double)(std::abs(m(i,j) - e)/(tol + 1e-300L)));
         g.require(std::abs(m(i,j) - e) <= tol, cat("perturbative momentum iteration (", i, ",", j, ") is ", m(i,j), ", expected ", (double)e));
      }
   }
   // numerical
   const double prec = g.coin(0.1) ? g.pick({0, -1}) : g.logu(1e-14, 0.5);
   const int maxit = g.coin(0.1) ? -g.below(2) : g.coin(0.5) ? g.range(1, 6) : g.range(7, 60);
   g.note("precision", prec); g.note("iterations", maxit);
   const M2 m = me.delta_mh2_2loop_mom_it_num(prec, maxit);
   const M2 m0 = me.get_mass_matrix_hh();
   const Eig e0 = eig(tree(x));
   double p2 = at ? 0 : (double)(std::abs(e0.l[0]) <= std::abs(e0.l[1]) ? e0.l[0] : e0.l[1]);
   const M2 start = me.delta_mh2_1loop(p2);
   const double n0 = (m0 + start).norm() + 1e-3*(double)ol::run(x, p2).norm();
   // all iterations; the result has to be one at which the documented condition stops
   M2 cur = start, other = start; bool ok = false, stop = maxit <= 0; std::string trace; double best = 1e300;
   R noise = 1e-12L*n0;
   double q2[6]; for (int k = 0; k < 6; ++k) q2[k] = p2 + (k % 2 ? -1 : 1)*(k < 2 ? 1e-13 : k < 4 ? 3e-13 : 1e-12)*n0; // iterations started next to the first one: effect of rounding errors (the map may be chaotic)
   for (int n = 0; n < std::max(maxit, 1) && !ok; ++n) {
      if (n > 0) cur = me.delta_mh2_1loop(p2);
      for (double& q : q2) {
         other = me.delta_mh2_1loop(q);
         noise = std::max(noise, (R)300*(cur - other).cwiseAbs().maxCoeff());
         const Eig f = eig(m0 + other); q = (double)(std::abs(f.l[0]) <= std::abs(f.l[1]) ? f.l[0] : f.l[1]);
      }
      const Eig e = eig(m0 + cur);
      const double nw = (double)(std::abs(e.l[0]) <= std::abs(e.l[1]) ? e.l[0] : e.l[1]);
      const R tie = std::abs(std::abs(e.l[0]) - std::abs(e.l[1]));
      if (tie <= 1e-10L*n0) g.discard();
      const double rel = std::abs(nw - p2)/std::max(std::abs(nw), std::abs(p2)), slack = 1e-13 + 1e-13*n0/std::max(std::abs(nw), std::abs(p2)) + 1e-6*std::abs(prec);
      const bool must = rel <= prec - slack, may = rel <= prec + slack || maxit <= 0 || (p2 == 0 && std::abs(nw) <= prec);
      // rounding errors of the momentum are amplified next to thresholds
      for (double h : {1e-13, -1e-13}) noise = std::max(noise, (R)100*(me.delta_mh2_1loop(p2 + h*n0) - me.delta_mh2_1loop(p2)).cwiseAbs().maxCoeff());
      const double d = (m - (cur - start)).cwiseAbs().maxCoeff();
      best = std::min(best, d);
      if (may || n + 1 == std::max(maxit, 1)) { stop = true; ok = d <= noise; g.measure("numerical iteration", (double)(d/noise)); }
      if (must) break;
      trace += cat(" ", nw);
      p2 = nw;
   }
   if (!ok) g.fail(cat("numerical momentum iteration gives\n", m, "\nwhich is none of the iterations that meet the precision goal ", prec, " or reach the iteration limit ", maxit, "; iterated squared masses:", trace, "; closest distance ", best));
   if (maxit <= 0) g.label("no iteration allowed");
   if (m.norm() > 1e-6) g.nontrivial();
}
