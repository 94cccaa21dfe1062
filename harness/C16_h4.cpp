// C16
#include "c16_hermitian.hpp"

VF_SUB("hermitian real 4x4", 40000, 200000) { hermitian<double, 4>(g); }
