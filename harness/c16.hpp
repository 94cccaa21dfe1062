// common parts of C16 (matrix generators)
#pragma once
#include "vf.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include <complex>

using namespace vf;
using namespace himalaya;
using cd = std::complex<double>;

template <class T> T rnd(Gen& g);
template <> inline double rnd<double>(Gen& g) { return g.uni(-1, 1); }
template <> inline cd rnd<cd>(Gen& g) { const double a = g.uni(-1, 1), b = g.uni(-1, 1); return {a, b}; }
template <class T> T irnd(Gen& g);
template <> inline double irnd<double>(Gen& g) { return g.range(-2, 2); }
template <> inline cd irnd<cd>(Gen& g) { const double a = g.range(-2, 2), b = g.range(-2, 2); return {a, b}; }

template <class T> T phase(Gen& g);
template <> inline double phase<double>(Gen& g) { return g.sign(); }
template <> inline cd phase<cd>(Gen& g) { return std::polar(1., g.uni(-3.15, 3.15)); }

template <class T, int N> using Mat = Eigen::Matrix<T, N, N>;

template <class T, int N> Mat<T, N> unitary(Gen& g)
{
   // product of plane rotations with phases; plain loops keep the compile time low
   Mat<T, N> m; m.setIdentity();
   if (g.coin(0.1)) { if (g.coin()) m.row(0).swap(m.row(N - 1)); return m; }
   for (int p = 0; p < N; ++p) for (int q = p + 1; q < N; ++q) {
      const double t = g.uni(-3.15, 3.15), c = std::cos(t), s = std::sin(t);
      const T f = phase<T>(g);
      for (int k = 0; k < N; ++k) {
         const T a = m(p, k), b = m(q, k);
         m(p, k) = c*a + s*f*b; m(q, k) = -s*a + c*f*b;
      }
   }
   return m;
}

template <int N> Eigen::Array<double, N, 1> spectrum(Gen& g, bool pos, bool& degenerate)
{
   Eigen::Array<double, N, 1> w;
   degenerate = false;
   const int kind = g.below(6);
   g.label(cat("spectrum ", kind));
   for (int i = 0; i < N; ++i) {
      double x = g.uni(0.1, 1);
      if (kind == 1 && i > 0 && g.coin(0.7)) { x = w[i - 1]; degenerate = true; }
      if (kind == 2 && i > 0 && g.coin(0.7)) { x = w[i - 1]*(1 + g.sign()*g.logu(1e-17, 1e-3)); degenerate = true; }
      if (kind == 3) x = g.logu(1e-12, 1);
      if (kind == 4 && g.coin(0.6)) x = 0;
      if (kind == 5 && i > 0 && g.coin(0.6)) { x = -w[i - 1]; degenerate = true; }
      w[i] = (!pos && g.coin(0.4)) ? -x : x;
      if (pos && w[i] < 0) w[i] = -w[i];
   }
   return w;
}

template <class M> bool offdiag(const M& m)
{
   for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) if (i != j && std::abs(m(i, j)) != 0) return true;
   return false;
}

template <class M> void noteM(Gen& g, const char* k, const M& m)
{
   std::ostringstream o; o.precision(17);
   for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) o << m(i, j) << (j + 1 < m.cols() ? " " : "; ");
   g.note(k, o.str());
}

static double magnitude(Gen& g) { return g.coin(0.3) ? g.logu(1e-100, 1e100) : g.coin(0.5) ? g.logu(1e-6, 1e10) : 1; }

template <class U> void is_unitary(Gen& g, const char* what, const U& u)
{
   const auto d = (u*u.adjoint() - U::Identity()).eval();
   close(g, cat("unitarity of ", what), d.norm(), 0, 1e-13*u.rows());
}

