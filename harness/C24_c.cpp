#include "C24.inc.hpp"
INTP(20000, 2, 3, 1, 3, DENSE, double)
INTP(20000, 2, 2, 8, 2, SPARSE, double)
