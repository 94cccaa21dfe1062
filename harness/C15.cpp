// C15: the tree-level spectrum satisfies the supersymmetric relations.
#include "point.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include <algorithm>
#include <array>

using vf::cat; using vf::Gen;
using himalaya::Parameters;
using himalaya::mh2_fo::MSSM_spectrum;
typedef long double R;

static vf::Info info(
   "the point is accepted and at least one sfermion pair, the CP-even Higgs bosons and the neutralinos mix",
   {"the mass matrices of the model are written down independently in long double precision (textbook form, D-terms by isospin and hypercharge)",
    "first and second generation Yukawa couplings are neglected by the model"});

namespace {
R sq(R x) { return x*x; }
struct M2 { R a, b, c; R norm() const { return std::max(std::abs(a), std::max(std::abs(b), std::abs(c))); } }; // a b; b c

/// m is the expected matrix; ev, z the result: z m z^T = diag(ev)
void check2(Gen& g, const char* n, const M2& m, const Eigen::Array<double,2,1>& ev, const Eigen::Matrix2d& z, double scale = 0, bool free = false)
{
   const R s = std::max<R>(m.norm(), scale), eps = 40*2.2e-16L;
   g.require(std::isfinite(ev(0)) && std::isfinite(ev(1)), cat(n, ": masses are not finite"));
   g.require(std::abs(ev(0)) <= std::abs(ev(1)), cat(n, ": masses are not sorted (by magnitude): ", ev(0), " ", ev(1)));
   for (int i = 0; i < 2; ++i) for (int j = 0; j <= i; ++j) {
      const R o = (R)z(i,0)*z(j,0) + (R)z(i,1)*z(j,1) - (i == j);
      g.require(std::abs(o) <= 20*2.2e-16L, cat(n, ": mixing matrix is not orthogonal: ", z(0,0), " ", z(0,1), " ", z(1,0), " ", z(1,1)));
      const R d = z(i,0)*(m.a*z(j,0) + m.b*z(j,1)) + z(i,1)*(m.b*z(j,0) + m.c*z(j,1)) - (i == j ? (R)ev(i) : 0);
      g.measure(n, (double)(std::abs(d)/(eps*s)));
      g.require(std::abs(d) <= eps*s, cat(n, ": rotated mass matrix (", i, ",", j, ") differs from the diagonal one by ", (double)d, " (matrix ", (double)m.a, " ", (double)m.b, " ", (double)m.c, ", masses ", ev(0), " ", ev(1), ")"));
   }
   const R h = (m.a - m.c)/2, root = std::hypot(h, m.b), mid = (m.a + m.c)/2;
   const bool swapped = ev(0) > ev(1); // tachyonic states are ordered by magnitude
   for (int i = 0; i < 2; ++i) {
      const R e = mid + ((i == 1) != swapped ? root : -root);
      g.require(std::abs(e - ev(i)) <= eps*s, cat(n, ": mass squared ", i, " is ", ev(i), ", expected ", (double)e));
   }
   (void)free;
}

/// eigenvalues of a real symmetric 4x4 matrix by Jacobi rotations
std::array<R,4> jacobi(std::array<std::array<R,4>,4> a)
{
   for (int sweep = 0; sweep < 60; ++sweep) {
      R off = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) off += sq(a[i][j]);
      if (off == 0) break;
      for (int p = 0; p < 4; ++p) for (int q = p + 1; q < 4; ++q) {
         if (a[p][q] == 0) continue;
         const R th = (a[q][q] - a[p][p])/(2*a[p][q]), t = (th >= 0 ? 1 : -1)/(std::abs(th) + std::sqrt(1 + th*th)), c = 1/std::sqrt(1 + t*t), s = t*c;
         for (int k = 0; k < 4; ++k) { const R x = a[k][p], y = a[k][q]; a[k][p] = c*x - s*y; a[k][q] = s*x + c*y; }
         for (int k = 0; k < 4; ++k) { const R x = a[p][k], y = a[q][k]; a[p][k] = c*x - s*y; a[q][k] = s*x + c*y; }
      }
   }
   return {a[0][0], a[1][1], a[2][2], a[3][3]};
}

/// expected matrices
struct Model {
   R gY2, g22, D, vu, vd, mu; ///< D = (vd^2 - vu^2)/4
   explicit Model(const Parameters& p) : gY2(sq((R)p.g1)*3/5), g22(sq((R)p.g2)), D((sq((R)p.vd) - sq((R)p.vu))/4), vu(p.vu), vd(p.vd), mu(p.mu) {}
   M2 sf(R mL2, R mR2, R T3, R Q, R mf, R A, R other) const { return {mL2 + mf*mf + (T3*g22 - (Q - T3)*gY2)*D, mf*(A - mu*other), mR2 + mf*mf + Q*gY2*D}; }
};

} // namespace

static void spectrum(Gen& g, bool gaugeless)
{
   Parameters p = pt::makeWide(g, gaugeless);
   pt::note(g, p);
   try { p.validate(false); } catch (const std::exception&) { g.discard(); }
   const MSSM_spectrum s(p);
   const Model m(p);
   const R v2 = sq(m.vu) + sq(m.vd), mz2 = (m.gY2 + m.g22)*v2/4, mw2 = m.g22*v2/4, ma2 = sq((R)p.MA);
   const auto near = [&](const char* n, R a, R b, R sc) { g.measure(n, (double)(std::abs(a - b)/(1e-14L*std::max(sc, std::abs(b)) + 1e-300L))); if (!(std::abs(a - b) <= 1e-14L*std::max(sc, std::abs(b)))) g.fail(cat(n, " is ", (double)a, ", expected ", (double)b)); };
   near("M2VZ", s.M2VZ, mz2, 0); near("M2VWm", s.M2VWm, mw2, 0);
   const R s2 = std::sqrt((R)2), mt = p.Yu(2,2)*m.vu/s2, mb = p.Yd(2,2)*m.vd/s2, mtau = p.Ye(2,2)*m.vd/s2;
   near("MFt", s.MFt, mt, 0); near("MFb", s.MFb, mb, 0); near("MFtau", s.MFtau, mtau, 0);
   const R Dnu = (m.g22 + m.gY2)/2*m.D;
   near("M2SveL", s.M2SveL, p.ml2(0,0) + Dnu, p.ml2(0,0) + v2); near("M2SvmL", s.M2SvmL, p.ml2(1,1) + Dnu, p.ml2(1,1) + v2); near("M2SvtL", s.M2SvtL, p.ml2(2,2) + Dnu, p.ml2(2,2) + v2);
   const R cb = m.vd/m.vu, tb = m.vu/m.vd, h = 0.5L, u = 2.L/3, d = -1.L/3;
   const double dterm = (double)mz2; // size of the terms which may cancel
   check2(g, "Su", m.sf(p.mq2(0,0), p.mu2(0,0), h, u, 0, 0, cb), s.M2Su, s.ZU, dterm);
   check2(g, "Sc", m.sf(p.mq2(1,1), p.mu2(1,1), h, u, 0, 0, cb), s.M2Sc, s.ZC, dterm);
   check2(g, "Sd", m.sf(p.mq2(0,0), p.md2(0,0), -h, d, 0, 0, tb), s.M2Sd, s.ZD, dterm);
   check2(g, "Ss", m.sf(p.mq2(1,1), p.md2(1,1), -h, d, 0, 0, tb), s.M2Ss, s.ZS, dterm);
   check2(g, "Se", m.sf(p.ml2(0,0), p.me2(0,0), -h, -1, 0, 0, tb), s.M2Se, s.ZE, dterm);
   check2(g, "Sm", m.sf(p.ml2(1,1), p.me2(1,1), -h, -1, 0, 0, tb), s.M2Sm, s.ZM, dterm);
   const M2 st = m.sf(p.mq2(2,2), p.mu2(2,2), h, u, mt, p.Au(2,2), cb), sb = m.sf(p.mq2(2,2), p.md2(2,2), -h, d, mb, p.Ad(2,2), tb), sta = m.sf(p.ml2(2,2), p.me2(2,2), -h, -1, mtau, p.Ae(2,2), tb);
   const double mixSt = dterm + (double)(std::abs(mt)*(std::abs(p.Au(2,2)) + std::abs(m.mu*cb))), mixSb = dterm + (double)(std::abs(mb)*(std::abs(p.Ad(2,2)) + std::abs(m.mu*tb))), mixSta = dterm + (double)(std::abs(mtau)*(std::abs(p.Ae(2,2)) + std::abs(m.mu*tb)));
   check2(g, "St", st, s.M2St, s.ZT, mixSt);
   check2(g, "Sb", sb, s.M2Sb, s.ZB, mixSb);
   check2(g, "Stau", sta, s.M2Stau, s.ZTau, mixSta);

   // Higgs sector, gauge parameter one
   const R sb2 = sq(m.vu)/v2, cb2 = sq(m.vd)/v2, sc = m.vu*m.vd/v2;
   const double hs = (double)std::max(ma2*std::max(tb, cb)*0 + ma2, mz2);
   check2(g, "hh", {ma2*sb2 + mz2*cb2, -(ma2 + mz2)*sc, ma2*cb2 + mz2*sb2}, s.M2hh, s.ZH, hs);
   check2(g, "Ah", {ma2*sb2 + mz2*cb2, (ma2 - mz2)*sc, ma2*cb2 + mz2*sb2}, s.M2Ah, s.ZA, hs);
   check2(g, "Hpm", {(ma2 + mw2)*sb2 + mw2*cb2, (ma2 + mw2 - mw2)*sc, (ma2 + mw2)*cb2 + mw2*sb2}, s.M2Hpm, s.ZP, hs);
   const auto pair = [&](const char* n, const Eigen::Array<double,2,1>& a, R x, R y) {
      if (x > y) std::swap(x, y);
      const R t = 60*2.2e-16L*y;
      if (!(std::abs(a(0) - x) <= t && std::abs(a(1) - y) <= t)) g.fail(cat(n, " are ", a(0), " ", a(1), ", expected ", (double)x, " ", (double)y)); };
   pair("CP-odd squared masses (Goldstone and A)", s.M2Ah, mz2, ma2);
   pair("charged squared masses (Goldstone and H+)", s.M2Hpm, mw2, ma2 + mw2);
   near("sum of CP-even squared masses", (R)s.M2hh(0) + s.M2hh(1), ma2 + mz2, 10*hs);

   // neutralinos
   {
      const R gY = std::sqrt(m.gY2), g2 = p.g2;
      std::array<std::array<R,4>,4> c{};
      const R e = p.g1 < 0 ? -gY : gY;
      c[0][0] = p.M1; c[1][1] = p.M2; c[0][2] = -e*m.vd/2; c[0][3] = e*m.vu/2; c[1][2] = g2*m.vd/2; c[1][3] = -g2*m.vu/2; c[2][3] = -m.mu;
      R norm = 0;
      for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) c[i][j] = c[j][i];
      for (auto& r : c) for (R x : r) norm = std::max(norm, std::abs(x));
      auto ev = jacobi(c);
      std::sort(ev.begin(), ev.end(), [](R a, R b) { return std::abs(a) < std::abs(b); });
      const R tol = 100*2.2e-16L*norm;
      for (int i = 0; i < 4; ++i) {
         g.require(std::isfinite(s.MChi(i)), "neutralino mass is not finite");
         if (i) g.require(std::abs(s.MChi(i)) >= std::abs(s.MChi(i-1)), cat("neutralino masses are not sorted: ", s.MChi.transpose()));
         g.require(std::abs(std::abs(ev[i]) - std::abs((R)s.MChi(i))) <= tol, cat("neutralino mass ", i, " is ", s.MChi(i), ", expected +-", (double)std::abs(ev[i])));
      }
      R orth = 0, dev = 0;
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
         R o = 0, x = 0;
         for (int k = 0; k < 4; ++k) { o += (R)s.ZN(i,k)*s.ZN(j,k); for (int l = 0; l < 4; ++l) x += s.ZN(i,k)*c[k][l]*s.ZN(j,l); }
         orth = std::max(orth, std::abs(o - (i == j))); dev = std::max(dev, std::abs(x - (i == j ? (R)s.MChi(i) : 0)));
      }
      // degenerate masses with opposite CP: the phases are not fixed by the mass matrix
      g.measure("ZN orthogonality", (double)(orth/1e-13L)); g.measure("Chi", (double)(dev/(2*tol)));
      g.require(orth <= 1e-13L, cat("neutralino mixing matrix is not orthogonal by ", (double)orth, ", masses ", s.MChi.transpose()));
      g.require(dev <= 2*tol, cat("neutralino mixing matrix does not diagonalise the mass matrix, deviation ", (double)dev, ", masses ", s.MChi.transpose()));
      R tr = 0; for (int i = 0; i < 4; ++i) tr += s.MChi(i);
      g.require(std::abs(tr - p.M1 - p.M2) <= 4*tol, cat("sum of signed neutralino masses is ", (double)tr, ", expected M1 + M2 = ", p.M1 + p.M2));
   }
   // charginos: U* X V^+ = diag
   {
      const R g2 = p.g2; const R X[2][2] = {{(R)p.M2, g2*m.vu/s2}, {g2*m.vd/s2, m.mu}};
      R norm = 0; for (auto& r : X) for (R x : r) norm = std::max(norm, std::abs(x));
      const R tol = 60*2.2e-16L*norm;
      g.require(s.MCha(0) >= 0 && s.MCha(0) <= s.MCha(1), cat("chargino masses are not sorted and non-negative: ", s.MCha.transpose()));
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
         R o = 0, q = 0, x = 0;
         for (int k = 0; k < 2; ++k) { o += (R)s.UM(i,k)*s.UM(j,k); q += (R)s.UP(i,k)*s.UP(j,k); for (int l = 0; l < 2; ++l) x += s.UM(i,k)*X[k][l]*s.UP(j,l); }
         g.require(std::abs(o - (i == j)) <= 1e-14L && std::abs(q - (i == j)) <= 1e-14L, "chargino mixing matrices are not orthogonal");
         g.require(std::abs(x - (i == j ? (R)s.MCha(i) : 0)) <= tol, cat("chargino mixing matrices do not diagonalise the mass matrix: (", i, ",", j, ") = ", (double)x, ", masses ", s.MCha.transpose()));
      }
      const R det = std::abs(X[0][0]*X[1][1] - X[0][1]*X[1][0]), tr = sq(X[0][0]) + sq(X[0][1]) + sq(X[1][0]) + sq(X[1][1]);
      g.require(std::abs((R)s.MCha(0)*s.MCha(1) - det) <= 4*tol*norm && std::abs(sq((R)s.MCha(0)) + sq((R)s.MCha(1)) - tr) <= 8*tol*norm, "chargino mass relations violated");
   }

   // the completed parameter point carries (equal masses or mass parameters are separated by 1e-8 there)
   const bool deg = std::abs(p.mq2(2,2)/p.mu2(2,2) - 1) < 1e-6;
   // the same third-generation spectrum
   const auto sfermion = [&](const char* n, const M2& x, const Eigen::Vector2d& mass, double theta, double s2, const Eigen::Array<double,2,1>& ev, double mix) {
      const double norm = std::max((double)x.norm(), mix);
      for (int i = 0; i < 2; ++i)
         g.require(std::abs(mass(i)*mass(i) - std::abs(ev(i))) <= (mass(1) - mass(0) < 1e-6*mass(1) || deg ? 6e-8 : 1e-12)*norm, cat("mass ", i, " of ", n, " of the completed point is ", mass(i), ", of the spectrum sqrt(", ev(i), ")"));
      const R c = std::cos((R)theta), si = std::sin((R)theta);
      const R off = c*si*(x.c - x.a) + (c*c - si*si)*x.b; // off-diagonal element in the rotated basis
      g.require(std::abs(off) <= 4e-8L*norm, cat("the mixing angle of ", n, " does not diagonalise its mass matrix, remaining element ", (double)off, " of ", norm));
      g.require(std::abs(std::sin(2*theta) - s2) <= 1e-7, "angle and sine differ"); };
   sfermion("St", st, p.MSt, p.theta_t, p.s2t, s.M2St, mixSt); sfermion("Sb", sb, p.MSb, p.theta_b, p.s2b, s.M2Sb, mixSb); sfermion("Stau", sta, p.MStau, p.theta_tau, p.s2tau, s.M2Stau, mixSta);
   // and the mass-matrix getters used by the Higgs mass calculation
   const himalaya::mh2_fo::MSSM_mass_eigenstates me(p);
   const auto mh = me.get_mass_matrix_hh(), mg = me.get_mass_matrix_hh_gaugeless();
   const R q = 1e-14L*hs*10;
   g.require(std::abs(mh(0,0) - (ma2*sb2 + mz2*cb2)) <= q && std::abs(mh(0,1) + (ma2 + mz2)*sc) <= q && mh(0,1) == mh(1,0) && std::abs(mh(1,1) - (ma2*cb2 + mz2*sb2)) <= q, "tree-level CP-even mass matrix");
   g.require(std::abs(mg(0,0) - ma2*sb2) <= q && std::abs(mg(0,1) + ma2*sc) <= q && mg(0,1) == mg(1,0) && std::abs(mg(1,1) - ma2*cb2) <= q, "tree-level CP-even mass matrix without gauge couplings");
   if (std::abs(st.b) + std::abs(sb.b) > 0 && sc > 0 && p.MA > 0 && p.mu != 0) g.nontrivial();
   if (p.MA*p.MA < mz2) g.label("MA < MZ");
   if (std::abs(s.M2St(1) - s.M2St(0)) < 1e-6*s.M2St(1)) g.label("degenerate stops");
   if (s.MChi.abs().minCoeff() < 1) g.label("nearly massless neutralino");
   if (s.M2Sc(0) < 0 || s.M2Su(0) < 0 || s.M2SveL < 0) g.label("tachyonic light sfermion");
}

VF_SUB("spectrum", 150000, 6000000) { spectrum(g, false); }
VF_SUB("gaugeless", 30000, 1000000) { spectrum(g, true); }
