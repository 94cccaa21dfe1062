// C16
#include "c16_symmetric.hpp"

VF_SUB("symmetric real 4x4", 120000, 800000) { symmetric_real<4>(g); }
