#include "C04.inc.hpp"
ADD(da_6_4, 3000, DA<6, 4>, double, 6, 4, false)
ADD(fa_3_2, 2000, DA<3, 2, float>, float, 3, 2, false)
