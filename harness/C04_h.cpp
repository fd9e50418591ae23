#include "C04.inc.hpp"
ADD(sb_6_4, 3000, SB<6, 4>, double, 6, 4, true)
ADD_REUSE(sb_6_4, 3000, SB<6, 4>, double, 6, 4, true)
