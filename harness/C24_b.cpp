#include "C24.inc.hpp"
INTP(20000, 3, 1, 4, 1, DENSE, double)
INTP(20000, 1, 1, 3, 2, DENSE, float)
