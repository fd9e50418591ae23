#include "C04.inc.hpp"
ADD(da_3_2, 3000, DA<3, 2>, double, 3, 2, false)
ADD(da_1_3, 3000, DA<1, 3>, double, 1, 3, false)
