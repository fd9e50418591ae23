#include "C04.inc.hpp"
ADD(sa_3_2, 3000, SA<3, 2>, double, 3, 2, true)
ADD_REUSE(sa_3_2, 3000, SA<3, 2>, double, 3, 2, true)
