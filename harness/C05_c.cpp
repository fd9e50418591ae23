#include "C05.inc.hpp"
ADD(dense_6_4, 8000, double, 6, 4, false) SOLVE(dense_6_4, 2000, double, 6, 4, false) ADD(dense_1_1, 2000, double, 1, 1, false)
