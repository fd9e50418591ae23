#include "C04.inc.hpp"
ADD(db_3_2, 3000, DB<3, 2>, double, 3, 2, false)
ADD(db_4_0, 3000, DB<4, 0>, double, 4, 0, false)
ADD(da_2_0, 1500, DA<2, 0>, double, 2, 0, false)
