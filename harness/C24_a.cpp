#include "C24.inc.hpp"
INTP(20000, 2, 1, 2, 2, DENSE, double)
INTP(20000, 1, 2, 5, 3, SPARSE, double)
