#include "C02.inc.hpp"
using F2 = boxADMM<3, 2, float>; ADD(F2, float, 3, 2, false, box_float_3x2, 1000)
