#include "C23.inc.hpp"
HIST(20000, 1, 1, 1, 0, 2, 4, 1, DENSE, float)
HIST(20000, 2, 3, 1, 2, 3, 2, 3, SPARSE, double)
