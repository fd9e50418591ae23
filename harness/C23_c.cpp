#include "C23.inc.hpp"
HIST(20000, 4, 1, 0, 0, 2, 5, 2, DENSE, double)
HIST(20000, 1, 2, 3, 1, 0, 1, 3, DENSE, double)
