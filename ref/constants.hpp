#pragma once
#include "ref/flags.hpp"
// computed from their definitions (Constants.hpp) with 30 digits, not copied
namespace vref { namespace {
const R Pi = 3.141592653589793238462643383279502884L;
const R z2 = Pi*Pi/6;
const R z3 = 1.20205690315959428539973816151L;
const R z4 = 1.08232323371113819151600369654L;
const R B4 = -1.76280008707377086406189763468L;
const R D3 = -3.02700949398765201978637470176L;
const R DN = 1.12024839703924208227251654822L;
const R OepS2 = 7.85174283642553117577559559153L;
const R S2 = 0.260434137632162098955729143208L;
const R T1ep = -24.2089280212035926787213382196L;
const R sqrt2 = 1.41421356237309504880168872421L;
const R oneLoop = 1/(16*Pi*Pi), twoLoop = oneLoop*oneLoop, threeLoop = oneLoop*oneLoop*oneLoop;
}} // namespace vref
