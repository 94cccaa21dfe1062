// C16
#include "c16_hermitian.hpp"

VF_SUB("hermitian complex 2x2", 120000, 600000) { hermitian<cd, 2>(g); }
