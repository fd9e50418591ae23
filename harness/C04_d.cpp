#include "C04.inc.hpp"
ADD(sb_3_2, 3000, SB<3, 2>, double, 3, 2, true)
ADD_REUSE(sb_3_2, 3000, SB<3, 2>, double, 3, 2, true)
