// Reference evaluation of the expanded corrections in long double.
#pragma once
#include "ref/flags.hpp"
namespace vref {
/// completed parameter point as seen by the expansions
struct In {
   R scale, mu, g3, vd, vu, MG, Mf, M1, M2, s2, Msq, Af;  ///< Af: A_t (A_b for the bottom variant)
   R At, Mt, MSt1, MSt2;                                 ///< always those of the stop sector
   static const int NH = 14;
};
struct Sym { R a11, a12, a22; };
/// masses modified to the MDR scheme; false if a squared mass is negative
struct Masses { R m1, m2; };
Masses mdrMasses(const In&, int h, int one, int two);
/// squared MDR masses
Masses mdrMasses2(const In&, int h, int one, int two);
/// self-energies (without the prefactor) of one loop order
Sym selfEnergy(const In&, int h, int loop, int mdr, const ExpansionFlags_t&, const Masses&);
/// calculateHierarchy
Sym calculateHierarchy(const In&, int h, int mdr, int l1, int l2, int l3, const ExpansionFlags_t&);
/// coefficients of the logarithms of the three-loop quartic coupling
struct Logs { R c[4]; R lm1; R sum() const { return c[0] + lm1*(c[1] + lm1*(c[2] + lm1*c[3])); } };
Logs lambdaLogs(const In&, int h, int mdr, const ExpansionFlags_t&);
/// one-loop correction of O(at), Mt41L, for given stop masses
Sym oneLoopAt(const In&, R m1, R m2);
/// shift from the H3m to the DR' scheme
Sym shiftH3m(const In&, int h, R m1, R m2);
/// the same for the squared light Higgs mass, without prefactor; logs == 0: without logarithms of the scale
R shiftH3mMh2(const In&, int h, int logs);
} // namespace vref
