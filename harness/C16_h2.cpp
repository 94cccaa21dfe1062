// C16
#include "c16_hermitian.hpp"

VF_SUB("hermitian real 2x2", 240000, 1500000) { hermitian<double, 2>(g); }
