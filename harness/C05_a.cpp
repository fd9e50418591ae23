#include "C05.inc.hpp"
ADD(dense_3_2, 8000, double, 3, 2, false) SOLVE(dense_3_2, 2000, double, 3, 2, false)
ADD(dense_float_3_2, 5000, float, 3, 2, false)
ADD(dense_3_0, 2000, double, 3, 0, false) SOLVE(dense_3_0, 1000, double, 3, 0, false)
