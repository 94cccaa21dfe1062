#pragma once
#include "c16.hpp"

// ---------------------------------------------------------------- singular values
template <class T, int M, int N> void svd_case(Gen& g)
{
   constexpr int K = M < N ? M : N;
   Eigen::Matrix<T, M, N> m; bool deg;
   const int how = g.below(3);
   if (how == 0) { for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) m(i, j) = rnd<T>(g); }
   else if (how == 1) { for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) m(i, j) = irnd<T>(g); }
   else {
      const Mat<T, M> u = unitary<T, M>(g); const Mat<T, N> v = unitary<T, N>(g); const auto w = spectrum<K>(g, true, deg);
      Eigen::Matrix<T, M, N> d = Eigen::Matrix<T, M, N>::Zero(); for (int i = 0; i < K; ++i) d(i, i) = w[i];
      m = u*d*v;
   }
   const double mag = magnitude(g);
   const Eigen::Matrix<T, M, N> mm = m*mag;
   noteM(g, "m", mm); if (offdiag(m)) g.nontrivial();
   Eigen::Array<double, K, 1> s, s2, s3, ue, ve; Mat<T, M> u, u3; Mat<T, N> v, v3; double err;
   const auto check = [&](const auto& s, const auto& u, const auto& v) {
      using C = typename std::decay<decltype(u(0, 0))>::type;
      is_unitary(g, "u", u); is_unitary(g, "v", v);
      Eigen::Matrix<C, M, N> d = Eigen::Matrix<C, M, N>::Zero(); for (int i = 0; i < K; ++i) d(i, i) = s[i]/mag;
      const Eigen::Matrix<C, M, N> r = u.transpose()*d*v - m.template cast<C>();
      close(g, "m - u^T s v", r.norm(), 0, 1e-13*(M + N)*m.norm() + 1e-300);
      g.require(s[0] >= 0, "s >= 0");
      for (int i = 1; i < K; ++i) g.require(s[i - 1] <= s[i], "ordering of s");
   };
   fs_svd(mm, s, u, v); check(s, u, v);
   fs_svd(mm, s2);
   for (int i = 0; i < K; ++i) close(g, "s without u, v", s2[i], s[i], 1e-13*(M + N)*m.norm()*mag);
   fs_svd(mm, s3, u3, v3, err, ue, ve);
   g.require((s3 == s).all() && (u3.array() == u.array()).all() && (v3.array() == v.array()).all(), "s, u, v with error bounds differ");
   close(g, "error bound of s", err, std::numeric_limits<double>::epsilon()*s[K - 1], 1e-15*err);
   // sum rule: trace
   close(g, "sum of squares", (s/mag).square().sum(), m.squaredNorm(), 1e-13*(M + N)*m.squaredNorm() + 1e-300);
}
