// C16
#include "c16_symmetric.hpp"

VF_SUB("symmetric complex 4x4", 60000, 300000) { symmetric_complex<4>(g); }

VF_SUB("listed finding: rank-one complex symmetric 4x4", 50, 50)
{
   // v v^T with v fixed up to a random phase and scale
   Mat<cd, 4> m;
   m << cd(10996.816864482505,0), cd(18245.874318768914,-23029.347340922483), cd(-38377.798300717652,52737.602918503049), cd(-99407.108821083079,-209124.80512050967),
        cd(18245.874318768914,-23029.347340922483), cd(-17954.187263973647,-76420.400994923795), cd(46765.904847693178,167872.15288940907), cd(-602881.49474212388,-138802.35460664736),
        cd(-38377.798300717652,52737.602918503049), cd(46765.904847693178,167872.15288940907), cd(-118979.82618997687,-368097.98919296509), cd(1349823.9615856619,253096.59991687798),
        cd(-99407.108821083079,-209124.80512050967), cd(-602881.49474212388,-138802.35460664736), cd(1349823.9615856619,253096.59991687798), cd(-3078291.7683986998,3780819.9438048163);
   const int k = g.range(-5, 5); m *= std::pow(2., k); g.note("k", k); g.nontrivial();
   Eigen::Array<double, 4, 1> s; Mat<cd, 4> u;
   fs_diagonalize_symmetric(m, s, u);
   try { check_takagi<4>(g, m, 1, s, u, 1e-12); } catch (const Fail& e) { g.known("takagi-complex-degenerate", e.what()); }
}
