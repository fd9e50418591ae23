#include "C04.inc.hpp"
ADD(sa_6_4, 3000, SA<6, 4>, double, 6, 4, true)
ADD_REUSE(sa_6_4, 3000, SA<6, 4>, double, 6, 4, true)
