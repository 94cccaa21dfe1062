// C16: perturbative eigenvalue expansion
#include "c16.hpp"

static Info info(
   "a case is one matrix (real or complex, dimension 2 to 6, rectangular for the singular value decomposition): random entries, small integers, "
   "or a product of random unitary matrices with a prescribed spectrum (generic, with exact or nearly exact degeneracies at relative distances 1e-17..1, opposite signs, zeros, ratios up to 1e12), at overall magnitudes 1e-100..1e100; "
   "non-trivial: the matrix has a non-zero off-diagonal element",
   {"complex symmetric matrices with numerically degenerate singular values are covered by the listed finding takagi-complex-degenerate (that overload is not used by the library)",
    "tolerance 1e-13 times the dimension relative to the norm of the matrix (perturbative expansion: 1e-11 divided by the relative gap to the power of the order)"});

// ---------------------------------------------------------------- perturbative expansion
using L = long double;
struct Series { L c[4]; };
static Series operator*(const Series& a, const Series& b) { Series r{}; for (int i = 0; i < 4; ++i) for (int j = 0; i + j < 4; ++j) r.c[i + j] += a.c[i]*b.c[j]; return r; }
static Series operator+(const Series& a, const Series& b) { Series r{}; for (int i = 0; i < 4; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
static Series operator*(L k, const Series& b) { Series r{}; for (int i = 0; i < 4; ++i) r.c[i] = k*b.c[i]; return r; }
static Series sqrtS(const Series& a) { Series r{}; r.c[0] = sqrtl(a.c[0]); r.c[1] = a.c[1]/(2*r.c[0]); r.c[2] = (a.c[2] - r.c[1]*r.c[1])/(2*r.c[0]); r.c[3] = (a.c[3] - 2*r.c[1]*r.c[2])/(2*r.c[0]); return r; }

VF_SUB("perturbative eigenvalues", 1200000, 6000000)
{
   // eigenvalues of a 2x2 symmetric matrix: (tr -+ sqrt((a-d)^2 + 4 b^2))/2 as power series in the loop parameter
   Eigen::Matrix2d m[4];
   const int kind = g.below(4);
   const double sc = magnitude(g);
   for (int k = 0; k < 4; ++k) {
      const double mag = k == 0 ? 1 : kind == 3 ? g.logu(1e-6, 1e2) : 1;
      double a = g.uni(-1, 1)*mag, b = g.uni(-1, 1)*mag, d = g.uni(-1, 1)*mag;
      if (kind == 1 && g.coin()) b = 0;
      if (kind == 2 && k == 0) { a = g.uni(0.5, 1); const double e = g.logu(1e-4, 1); d = a*(1 + g.sign()*e); b = a*e*g.uni(-1, 1); }
      if (k > 0 && g.coin(0.15)) a = b = d = 0;
      m[k] << a, b, b, d;
   }
   Series A, B, D; for (int k = 0; k < 4; ++k) { A.c[k] = m[k](0, 0); B.c[k] = m[k](0, 1); D.c[k] = m[k](1, 1); }
   const Series dif = A + (-1)*D, disc = dif*dif + 4*(B*B);
   if (disc.c[0] < 1e-9) g.discard();
   g.nontrivial();
   const Series sq = sqrtS(disc), lo = 0.5L*(A + D + (-1)*sq), hi = 0.5L*(A + D + sq);
   for (int k = 0; k < 4; ++k) { m[k] *= sc; noteM(g, cat("m", k).c_str(), m[k]); }
   V2 e[4];
   std::tie(e[0], e[1], e[2], e[3]) = fs_diagonalize_hermitian_perturbatively(m[0], m[1], m[2], m[3]);
   double big = 0; for (auto& x : m) big = std::max(big, x.norm()/sc);
   const double gap = std::sqrt((double)disc.c[0])/m[0].norm()*sc;
   double t = 1e-14*big/gap/gap;
   for (int k = 0; k < 4; ++k) {
      close(g, cat("lower eigenvalue, order ", k), e[k][0]/sc, (double)lo.c[k], t);
      close(g, cat("upper eigenvalue, order ", k), e[k][1]/sc, (double)hi.c[k], t);
      t *= 3*big/(gap*m[0].norm()/sc);
   }
   g.require(e[0][0] <= e[0][1], "ordering");
   // fewer arguments are zero matrices
   V2 f[4];
   std::tie(f[0], f[1], f[2], f[3]) = fs_diagonalize_hermitian_perturbatively(m[0], m[1], m[2]);
   for (int k = 0; k < 3; ++k) for (int i = 0; i < 2; ++i) close(g, "without 3-loop matrix", f[k][i]/sc, e[k][i]/sc, 1e-13*std::abs(e[k][i]/sc) + 1e-300);
}

VF_SUB("resummed vs numeric", 200000, 1000000)
{
   // at a small loop parameter the sum of the coefficients is the numeric eigenvalue up to the next order
   Eigen::Matrix2d m[4];
   for (auto& x : m) { const double a = g.uni(-1, 1), b = g.uni(-1, 1), d = g.uni(-1, 1); x << a, b, b, d; }
   const double gap = std::hypot(m[0](0, 0) - m[0](1, 1), 2*m[0](0, 1));
   if (gap < 0.2) g.discard();
   g.nontrivial();
   const double h = 1e-3;
   V2 e[4];
   std::tie(e[0], e[1], e[2], e[3]) = fs_diagonalize_hermitian_perturbatively(m[0], m[1], m[2], m[3]);
   const Eigen::Matrix2d t = m[0] + h*m[1] + h*h*m[2] + h*h*h*m[3];
   Eigen::Array<double, 2, 1> w; Eigen::Matrix2d z;
   fs_diagonalize_hermitian(t, w, z);
   std::sort(w.data(), w.data() + 2);
   const V2 s = e[0] + h*e[1] + h*h*e[2] + h*h*h*e[3];
   for (int i = 0; i < 2; ++i) close(g, "series vs numeric", s[i], w[i], 300*std::pow(h, 4)/std::pow(gap, 4) + 1e-14);
}
