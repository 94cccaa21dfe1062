#pragma once
#include "c16.hpp"

// ---------------------------------------------------------------- symmetric (Takagi)
template <int N> void check_takagi(Gen& g, const Mat<cd, N>& m, double mag, const Eigen::Array<double, N, 1>& s, const Mat<cd, N>& u, double tol)
{
   close(g, "unitarity of u", (u*u.adjoint() - Mat<cd, N>::Identity()).norm(), 0, tol*N);
   const Mat<cd, N> r = u.transpose()*(s/mag).matrix().template cast<cd>().asDiagonal()*u - m;
   close(g, "m - u^T s u", r.norm(), 0, tol*N*m.norm() + 1e-300);
   g.require(s[0] >= 0, "s >= 0");
   for (int i = 1; i < N; ++i) g.require(s[i - 1] <= s[i], "ordering of s");
}

template <int N> void symmetric_real(Gen& g)
{
   Mat<double, N> m;
   const int how = g.below(3); bool deg;
   if (how == 0) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = rnd<double>(g); m = (m + m.transpose()).eval(); }
   else if (how == 1) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = irnd<double>(g); m = (m + m.transpose()).eval(); }
   else { const Mat<double, N> u = unitary<double, N>(g); const auto w = spectrum<N>(g, false, deg); m = u.adjoint()*w.matrix().asDiagonal()*u; m = (0.5*(m + m.transpose())).eval(); }
   const double mag = magnitude(g);
   const Mat<double, N> mm = m*mag;
   noteM(g, "m", mm); if (offdiag(m)) g.nontrivial();
   Eigen::Array<double, N, 1> s, s2, s3, uerr; Mat<cd, N> u, u3; double err;
   fs_diagonalize_symmetric(mm, s, u);
   check_takagi<N>(g, m.template cast<cd>(), mag, s, u, 1e-13);
   fs_diagonalize_symmetric(mm, s2);
   for (int i = 0; i < N; ++i) close(g, "s without u", s2[i], s[i], 1e-13*N*m.norm()*mag);
   fs_diagonalize_symmetric(mm, s3, u3, err, uerr);
   g.require((s3 == s).all() && (u3.array() == u.array()).all(), "s, u with error bounds differ");
   close(g, "error bound of s", err, std::numeric_limits<double>::epsilon()*s[N - 1], 1e-15*err);
   // each row of u is real or purely imaginary; u^* m u^+ gives signed eigenvalue u^2 -> gap
   Eigen::Array<double, N, 1> e;
   for (int i = 0; i < N; ++i) e[i] = u.row(i).real().norm() > 0.5 ? s[i] : -s[i];
   for (int i = 0; i < N; ++i) {
      double gap = 1e308; for (int j = 0; j < N; ++j) if (j != i) gap = std::min(gap, std::abs(e[i] - e[j]));
      gap = std::max(gap, s[N-1] == 0 ? std::numeric_limits<double>::epsilon() : std::max(std::numeric_limits<double>::epsilon()*s[N - 1], 2.2250738585072014e-308));
      close(g, "error bound of u", uerr[i], err/gap, 1e-12*uerr[i]);
   }
   fs_diagonalize_symmetric(mm, s3, u3, err);
   g.require((s3 == s).all() && (u3.array() == u.array()).all(), "s, u with error bound differ");
}
template <int N> void symmetric_complex(Gen& g)
{
   Mat<cd, N> m; bool deg = false;
   const int how = g.below(3);
   if (how == 0) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = rnd<cd>(g); m = (m + m.transpose()).eval(); }
   else if (how == 1) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = irnd<cd>(g); m = (m + m.transpose()).eval(); }
   else { const Mat<cd, N> u = unitary<cd, N>(g); const auto w = spectrum<N>(g, true, deg); m = u.transpose()*w.matrix().template cast<cd>().asDiagonal()*u; m = (0.5*(m + m.transpose())).eval(); }
   const double mag = magnitude(g);
   const Mat<cd, N> mm = m*mag;
   noteM(g, "m", mm); if (offdiag(m)) g.nontrivial();
   Eigen::Array<double, N, 1> s, s2; Mat<cd, N> u;
   fs_diagonalize_symmetric(mm, s, u);
   double gap = 1;
   for (int i = 1; i < N; ++i) gap = std::min(gap, (s[i] - s[i - 1])/s[N - 1]);
   g.note("gap", gap);
   g.note("s0", s[0]/s[N-1]);
   try { check_takagi<N>(g, m, mag, s, u, 1e-11/std::max(gap, 1e-8)); }
   catch (const Fail& e) {
      // listed finding: only for numerically degenerate (or several vanishing) singular values
      if (gap < 1e-6) g.known("takagi-complex-degenerate", e.what()); else throw;
   }
   fs_diagonalize_symmetric(mm, s2);
   for (int i = 0; i < N; ++i) close(g, "s without u", s2[i], s[i], 1e-13*N*m.norm()*mag);
}
