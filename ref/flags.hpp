#pragma once
#include <array>
#include <cmath>
namespace vref {
typedef long double R;
using std::tan; using std::sin; using std::cos; using std::log; using std::sqrt; using std::abs; using std::pow;
#define VREF_POW(n, e) inline constexpr R n(R x) { return e; }
VREF_POW(pow2, x*x) VREF_POW(pow3, x*x*x) VREF_POW(pow4, pow2(pow2(x))) VREF_POW(pow5, pow4(x)*x) VREF_POW(pow6, pow2(pow3(x)))
VREF_POW(pow7, pow6(x)*x) VREF_POW(pow8, pow2(pow4(x))) VREF_POW(pow9, pow8(x)*x) VREF_POW(power10, pow2(pow5(x))) VREF_POW(pow11, power10(x)*x)
VREF_POW(pow12, pow2(pow6(x))) VREF_POW(pow13, pow12(x)*x) VREF_POW(pow14, pow2(pow7(x))) VREF_POW(pow15, pow14(x)*x) VREF_POW(pow16, pow2(pow8(x)))
VREF_POW(pow17, pow16(x)*x) VREF_POW(pow18, pow2(pow9(x))) VREF_POW(pow19, pow18(x)*x) VREF_POW(pow20, pow2(power10(x)))
#undef VREF_POW
typedef std::array<int, 12> ExpansionFlags_t;
namespace hierarchies {
typedef std::array<int, 12> ExpansionFlags_t;
namespace ExpansionDepth { enum ExpansionDepth : int { threeLoop, Mst, Dmglst1, Dmsqst1, Dmst12, At, lmMsusy, Msq, Msusy, Dmglst2, Dmsqst2, Mgl }; }
}
} // namespace vref
