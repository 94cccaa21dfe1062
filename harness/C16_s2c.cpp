// C16
#include "c16_symmetric.hpp"

VF_SUB("symmetric complex 2x2", 80000, 400000) { symmetric_complex<2>(g); }
