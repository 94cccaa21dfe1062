// One-loop correction to the CP-even Higgs mass matrix of the MSSM from
// field-dependent mass matrices (Feynman gauge, DR', minimum of the one-loop
// effective potential), written down independently of the library.
#pragma once
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include <Eigen/Eigenvalues>
#include <algorithm>
#include <cmath>

namespace ol {
typedef long double R;
typedef Eigen::Matrix<R,Eigen::Dynamic,Eigen::Dynamic> M;
inline R sq(R x) { return x*x; }

struct Result {
   R d[2][2] = {}, s[2][2] = {}; ///< value, sum of magnitudes
   bool tachyonic = false;
   R mh2[2] = {};
   void add(int i, int j, R x) { d[i][j] += x; s[i][j] += std::abs(x); if (i != j) { d[j][i] += x; s[j][i] += std::abs(x); } }
   R norm() const { return std::max({s[0][0], s[0][1], s[1][1]}); }
};

/// what enters the calculation
struct Input {
   R g1, g2, yt, yb, ytau, vu, vd, mu, At, Ab, Atau, M1, M2, MA, scale;
   R mq2[3], mu2[3], md2[3], ml2[3], me2[3];
   explicit Input(const himalaya::Parameters& p) : g1(p.g1), g2(p.g2), yt(p.Yu(2,2)), yb(p.Yd(2,2)), ytau(p.Ye(2,2)), vu(p.vu), vd(p.vd), mu(p.mu), At(p.Au(2,2)), Ab(p.Ad(2,2)), Atau(p.Ae(2,2)), M1(p.M1), M2(p.M2), MA(p.MA), scale(p.scale)
   { for (int i = 0; i < 3; ++i) { mq2[i] = p.mq2(i,i); mu2[i] = p.mu2(i,i); md2[i] = p.md2(i,i); ml2[i] = p.ml2(i,i); me2[i] = p.me2(i,i); } }
};

/// a quadratic function of the fields with matrix values
struct Poly {
   M c, l[2], q[2][2]; ///< c + l_i phi_i + q_ij phi_i phi_j (i <= j)
   explicit Poly(int n) { c = l[0] = l[1] = q[0][0] = q[0][1] = q[1][1] = M::Zero(n, n); }
   void set(M& m, int a, int b, R x) { m(a,b) += x; if (a != b) m(b,a) += x; }
   M at(R pd, R pu) const { return c + l[0]*pd + l[1]*pu + q[0][0]*pd*pd + q[0][1]*pd*pu + q[1][1]*pu*pu; }
   M d1(int i, R pd, R pu) const { return i == 0 ? M(l[0] + 2*q[0][0]*pd + q[0][1]*pu) : M(l[1] + 2*q[1][1]*pu + q[0][1]*pd); }
   M d2(int i, int j) const { return i == j ? M(2*q[i][i]) : q[0][1]; }
};

class Calc {
public:
   /// deriv: derivative w.r.t. p^2 at p^2 = 0 (for vanishing gauge couplings) instead of the value
   Calc(const Input& x, R p2, bool deriv = false) : x(x), p2(p2), q2((double)(x.scale*x.scale)), v{x.vd, x.vu}, deriv(deriv) {}

   Result run()
   {
      const R gY2 = x.g1*x.g1*3/5, g22 = x.g2*x.g2, gZ2 = gY2 + g22, s2 = std::sqrt((R)2), v2 = sq(x.vu) + sq(x.vd);
      const R h = 0.5L, u = 2.L/3, d = -1.L/3;
      // sfermions: L, R
      for (int i = 0; i < 3; ++i) {
         sfermion(3, x.mq2[i], x.mu2[i], h, u, i == 2 ? x.yt : 0, x.At, 1, gY2, g22);
         sfermion(3, x.mq2[i], x.md2[i], -h, d, i == 2 ? x.yb : 0, x.Ab, 0, gY2, g22);
         sfermion(1, x.ml2[i], x.me2[i], -h, -1, i == 2 ? x.ytau : 0, x.Atau, 0, gY2, g22);
         Poly m(1); m.c(0,0) = x.ml2[i]; const R k = (g22 + gY2)/8; m.q[0][0](0,0) = k; m.q[1][1](0,0) = -k; scalars(m, 2);
      }
      // quark, lepton
      dirac(3, x.yt, 1); dirac(3, x.yb, 0); dirac(1, x.ytau, 0);
      // Higgs
      const R B = sq(x.MA)*x.vu*x.vd/v2, D = (sq(x.vd) - sq(x.vu))*gZ2/8, m1 = B*x.vu/x.vd - D, m2 = B*x.vd/x.vu + D;
      { Poly m(2); const R k = gZ2/8; m.c << m1, -B, -B, m2;
        m.q[0][0](0,0) = 3*k; m.q[1][1](0,0) = -k; m.q[1][1](1,1) = 3*k; m.q[0][0](1,1) = -k; m.set(m.q[0][1], 0, 1, -2*k);
        scalars(m, 1, M::Zero(2, 2), res.mh2); }
      { Poly m(2); const R k = gZ2/8; m.c << m1, B, B, m2;
        m.q[0][0](0,0) = k; m.q[1][1](0,0) = -k; m.q[1][1](1,1) = k; m.q[0][0](1,1) = -k;
        M f(2, 2); f << sq(x.vd), -x.vd*x.vu, -x.vd*x.vu, sq(x.vu); f *= gZ2/4;
        vector(m.at(x.vd, x.vu) + f, gZ2, 1);
        scalars(m, 1, f); }
      { Poly m(2); const R k = gZ2/8; m.c << m1, B, B, m2;
        m.q[0][0](0,0) = k; m.q[1][1](0,0) = -k + g22/4; m.q[1][1](1,1) = k; m.q[0][0](1,1) = -k + g22/4; m.set(m.q[0][1], 0, 1, g22/4);
        M f(2, 2); f << sq(x.vd), -x.vd*x.vu, -x.vd*x.vu, sq(x.vu); f *= g22/4;
        vector(m.at(x.vd, x.vu) + f, g22, 2);
        scalars(m, 2, f); }
      // neutralinos and charginos
      const R gY = std::copysign(std::sqrt(gY2), x.g1), g2 = x.g2;
      { Poly m(4); m.c(0,0) = x.M1; m.c(1,1) = x.M2; m.set(m.c, 2, 3, -x.mu);
        m.set(m.l[0], 0, 2, -gY/2); m.set(m.l[1], 0, 3, gY/2); m.set(m.l[0], 1, 2, g2/2); m.set(m.l[1], 1, 3, -g2/2); majorana(m); }
      { Poly m(4); m.set(m.c, 0, 2, x.M2); m.set(m.c, 1, 3, x.mu); m.set(m.l[1], 0, 3, g2/s2); m.set(m.l[0], 1, 2, g2/s2); majorana(m); }
      const R k = 1/(16*sq(std::acos((R)-1)));
      for (auto* a : {&res.d, &res.s}) for (auto& r : *a) for (R& y : r) y *= k;
      return res;
   }

private:
   Input x; R p2; double q2; R v[2]; bool deriv; Result res;
public:
   R shake = 0; unsigned pattern = 1; ///< relative errors put on the squared masses (to estimate the effect of rounding)
private:
   void rounding(Eigen::Matrix<R,Eigen::Dynamic,1>& e, R norm, R power) { if (shake == 0) return; for (int a = 0; a < e.size(); ++a) { pattern = pattern*1664525u + 1013904223u; const R d = shake*norm*((pattern >> 16) % 2001/1000.L - 1); e(a) = power == 2 ? std::abs(e(a) + d) : e(a) + d; } }

   R A(R m) { if (m < 0) res.tachyonic = true; return deriv ? 0 : -(R)himalaya::mh2_fo::a0((double)m, q2); } // m^2 (log(m^2/q^2) - 1)
   R B(R a, R b) { if (a < 0 || b < 0) res.tachyonic = true; return deriv ? himalaya::mh2_fo::d1_b0((double)a, (double)b) : himalaya::mh2_fo::b0((double)p2, (double)a, (double)b, q2); }

   void sfermion(int nc, R mL, R mR, R T3, R Q, R y, R a, int own, R gY2, R g22)
   {
      Poly m(2); m.c(0,0) = mL; m.c(1,1) = mR;
      const R dl = (T3*g22 - (Q - T3)*gY2)/4, dr = Q*gY2/4;
      m.q[0][0](0,0) = dl; m.q[1][1](0,0) = -dl; m.q[0][0](1,1) = dr; m.q[1][1](1,1) = -dr;
      m.q[own][own](0,0) += y*y/2; m.q[own][own](1,1) += y*y/2;
      const R s2 = std::sqrt((R)2);
      m.set(m.l[own], 0, 1, y*a/s2); m.set(m.l[1-own], 0, 1, -y*x.mu/s2);
      scalars(m, 2*nc);
   }

   /// n real scalars with mass matrix m (plus the field-independent part fix)
   void scalars(const Poly& m, R n, const M& fix = M(), R* out = nullptr)
   {
      M m0 = m.at(v[0], v[1]); if (fix.size()) m0 += fix;
      Eigen::SelfAdjointEigenSolver<M> es(m0);
      const M U = es.eigenvectors(); Eigen::Matrix<R,Eigen::Dynamic,1> e = es.eigenvalues(); const int N = (int)e.size();
      rounding(e, m0.norm(), 2);
      if (out) for (int a = 0; a < N; ++a) out[a] = e(a);
      M D[2]; for (int i = 0; i < 2; ++i) D[i] = U.transpose()*m.d1(i, v[0], v[1])*U;
      for (int i = 0; i < 2; ++i) for (int j = i; j < 2; ++j) {
         const M DD = U.transpose()*m.d2(i, j)*U;
         for (int a = 0; a < N; ++a) {
            res.add(i, j, n/2*DD(a,a)*A(e(a)));
            if (i == j) res.add(i, j, -n/2*D[i](a,a)/v[i]*A(e(a)));
            for (int b = 0; b < N; ++b) if (D[i](a,b)*D[j](a,b) != 0) res.add(i, j, -n/2*D[i](a,b)*D[j](a,b)*B(e(a), e(b)));
         }
      }
   }

   void dirac(R nc, R y, int i)
   {
      const R m = sq(y*v[i])/2;
      if (y != 0) res.add(i, i, nc*y*y*(4*m - p2)*B(m, m));
      if (y != 0 && deriv) res.add(i, i, -nc*y*y*(R)himalaya::mh2_fo::b0(0, (double)m, (double)m, q2));
   }

   /// Majorana fermions with a mass matrix linear in the fields
   void majorana(const Poly& m)
   {
      Eigen::SelfAdjointEigenSolver<M> es(m.at(v[0], v[1]));
      const M U = es.eigenvectors(); Eigen::Matrix<R,Eigen::Dynamic,1> e = es.eigenvalues(); const int N = (int)e.size();
      rounding(e, e.norm(), 1);
      M D[2]; for (int i = 0; i < 2; ++i) D[i] = U.transpose()*m.l[i]*U;
      for (int i = 0; i < 2; ++i) for (int j = i; j < 2; ++j) for (int a = 0; a < N; ++a) {
         const R xa = sq(e(a));
         if (i == j) res.add(i, j, 2*e(a)*D[i](a,a)/v[i]*A(xa));
         for (int b = 0; b < N; ++b) {
            const R xb = sq(e(b)), y = D[i](a,b)*D[j](a,b);
            if (y == 0) continue;
            res.add(i, j, y*(xa + xb - p2 + 2*e(a)*e(b))*B(xa, xb)); res.add(i, j, -y*A(xa)); res.add(i, j, -y*A(xb));
         }
      }
   }

   /// massive vector boson with squared coupling g2, together with the pseudo-scalars (mass matrix m)
   void vector(const M& m, R g2, R n)
   {
      const R V = g2*(sq(v[0]) + sq(v[1]))/4;
      Eigen::SelfAdjointEigenSolver<M> es(m);
      const M U = es.eigenvectors(); Eigen::Matrix<R,Eigen::Dynamic,1> e = es.eigenvalues();
      rounding(e, m.norm(), 2);
      for (int i = 0; i < 2; ++i) for (int j = i; j < 2; ++j) {
         if (g2 == 0) continue;
         res.add(i, j, -1.75L*n*sq(g2/2)*v[i]*v[j]*B(V, V));
         if (i == j) res.add(i, j, n*g2/4*A(V));
         for (int a = 0; a < 2; ++a) {
            const R c = g2/4*(i ? -1 : 1)*(j ? -1 : 1)*U(i,a)*U(j,a);
            res.add(i, j, n*c*-2*A(V)); res.add(i, j, n*c*A(e(a))); res.add(i, j, n*c*(2*p2 + 2*e(a) - V)*B(V, e(a)));
         }
      }
   }
};

inline Result run(const Input& x, double p2) { return Calc(x, p2).run(); }
inline Input gaugeless(Input x) { x.g1 = x.g2 = 0; return x; }
inline Input onlyTop(Input x) { x.g1 = x.g2 = x.yb = x.ytau = 0; return x; }
inline Result deriv(const Input& x) { return Calc(gaugeless(x), 0, true).run(); }
} // namespace ol
