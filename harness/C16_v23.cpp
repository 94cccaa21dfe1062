// C16
#include "c16_svd.hpp"

VF_SUB("svd real 2x3", 40000, 200000) { svd_case<double, 2, 3>(g); }
