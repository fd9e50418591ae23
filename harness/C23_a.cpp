#include "C23.inc.hpp"
HIST(20000, 2, 1, 0, 1, 0, 2, 2, DENSE, double)
HIST(20000, 3, 2, 2, 2, 1, 3, 2, SPARSE, double)
