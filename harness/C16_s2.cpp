// C16
#include "c16_symmetric.hpp"

VF_SUB("symmetric real 2x2", 120000, 600000) { symmetric_real<2>(g); }
