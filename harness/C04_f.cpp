#include "C04.inc.hpp"
ADD(db_6_4, 3000, DB<6, 4>, double, 6, 4, false)
ADD(fb_3_2, 2000, DB<3, 2, float>, float, 3, 2, false)
