// C16
#include "c16_svd.hpp"

VF_SUB("svd real 2x2", 120000, 600000) { svd_case<double, 2, 2>(g); }
VF_SUB("svd real matrix, complex vectors", 40000, 200000)
{
   Mat<double, 2> m; for (int i = 0; i < 4; ++i) m(i/2, i%2) = g.coin(0.2) ? 0 : g.uni(-1, 1);
   m *= magnitude(g); noteM(g, "m", m); if (offdiag(m)) g.nontrivial();
   Eigen::Array<double, 2, 1> s; Mat<cd, 2> u, v;
   fs_svd(m, s, u, v);
   is_unitary(g, "u", u); is_unitary(g, "v", v);
   const Mat<cd, 2> r = (u.transpose()*s.matrix().cast<cd>().asDiagonal()*v - m.cast<cd>());
   close(g, "m - u^T s v", r.norm(), 0, 4e-13*m.norm());
   g.require(s[0] >= 0 && s[0] <= s[1], "order");
}

