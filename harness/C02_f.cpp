#include "C02.inc.hpp"
using B30 = boxADMM<3, 0, double>; ADD(B30, double, 3, 0, false, box_dense_3x0, 3000)
using F1 = ADMM<3, 2, float>; ADD(F1, float, 3, 2, false, admm_float_3x2, 1000)
