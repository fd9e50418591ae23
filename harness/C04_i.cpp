#include "C04.inc.hpp"
ADD(sa_3_0, 1500, SA<3, 0>, double, 3, 0, true)
ADD_REUSE(sa_3_0, 1500, SA<3, 0>, double, 3, 0, true)
ADD(sb_3_0, 1500, SB<3, 0>, double, 3, 0, true)
ADD_REUSE(sb_3_0, 1500, SB<3, 0>, double, 3, 0, true)
