// C16
#include "c16_svd.hpp"

VF_SUB("svd complex 3x3", 40000, 200000) { svd_case<cd, 3, 3>(g); }
