#include "C05.inc.hpp"
ADD(sparse_6_4, 8000, double, 6, 4, true) SOLVE(sparse_6_4, 2000, double, 6, 4, true) ADD(sparse_2_5, 4000, double, 2, 5, true)
