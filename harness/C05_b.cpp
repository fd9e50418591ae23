#include "C05.inc.hpp"
ADD(sparse_3_2, 8000, double, 3, 2, true) SOLVE(sparse_3_2, 2000, double, 3, 2, true)
ADD(sparse_3_0, 2000, double, 3, 0, true) SOLVE(sparse_3_0, 1000, double, 3, 0, true)
