// C16
#include "c16_hermitian.hpp"

VF_SUB("hermitian complex 3x3", 80000, 400000) { hermitian<cd, 3>(g); }
