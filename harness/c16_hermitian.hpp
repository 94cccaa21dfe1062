#pragma once
#include "c16.hpp"

// ---------------------------------------------------------------- hermitian
template <class T, int N> void hermitian(Gen& g)
{
   Mat<T, N> m;
   const int how = g.below(3);
   bool deg;
   if (how == 0) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = rnd<T>(g); m = (m + m.adjoint()).eval(); }
   else if (how == 1) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = irnd<T>(g); m = (m + m.adjoint()).eval(); }
   else { const Mat<T, N> u = unitary<T, N>(g); const auto w = spectrum<N>(g, false, deg); m = u.adjoint()*w.matrix().template cast<T>().asDiagonal()*u; m = (0.5*(m + m.adjoint())).eval(); }
   const double mag = magnitude(g);
   const Mat<T, N> mm = m*mag;
   noteM(g, "m", mm); if (offdiag(m)) g.nontrivial();
   const double n = m.norm()*mag;
   Eigen::Array<double, N, 1> w, w2, w3, w4, zerr;
   Mat<T, N> z, z3, z4; double err = -1, err4 = -1;
   fs_diagonalize_hermitian(mm, w, z);
   is_unitary(g, "z", z);
   const Mat<T, N> r = z.adjoint()*(w/mag).matrix().template cast<T>().asDiagonal()*z - m;
   close(g, "m - z^+ w z", r.norm(), 0, 1e-13*N*m.norm() + 1e-300);
   for (int i = 1; i < N; ++i) g.require(std::abs(w[i - 1]) <= std::abs(w[i]), cat("ordering of |w|: ", w[i-1], " ", w[i]));
   fs_diagonalize_hermitian(mm, w2);
   // values only: order of equal magnitudes may differ, compare magnitudes
   for (int i = 0; i < N; ++i) close(g, "|w| without vectors", std::abs(w2[i]), std::abs(w[i]), 1e-13*N*n);
   fs_diagonalize_hermitian(mm, w3, z3, err);
   g.require((w3 == w).all() && (z3.array() == z.array()).all(), "w, z with error bound differ");
   close(g, "error bound of w", err, std::numeric_limits<double>::epsilon()*std::abs(w[N - 1]), 1e-15*err);
   fs_diagonalize_hermitian(mm, w4, z4, err4, zerr);
   g.require((w4 == w).all() && (z4.array() == z.array()).all(), "w, z with error bounds differ");
   for (int i = 0; i < N; ++i) {
      double gap = 1e308; for (int j = 0; j < N; ++j) if (j != i) gap = std::min(gap, std::abs(w[i] - w[j]));
      gap = std::max(gap, std::max(std::numeric_limits<double>::epsilon()*std::abs(w[N - 1]), std::abs(w[N-1]) == 0 ? std::numeric_limits<double>::epsilon() : 2.2250738585072014e-308));
      close(g, "error bound of z", zerr[i], err/gap, 1e-12*zerr[i]);
   }
}
