#include "C01.inc.hpp"
// larger problems
DENSE_A(12, 10)
DENSE_B(12, 10)
SPARSE_B(20, 15)
