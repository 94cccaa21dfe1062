// C16
#include "c16_svd.hpp"

VF_SUB("svd real 3x3", 80000, 600000) { svd_case<double, 3, 3>(g); }
