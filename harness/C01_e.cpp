#include "C01.inc.hpp"
// no general constraints
DENSE_A(3, 0)
DENSE_B(3, 0)
SPARSE_B(3, 0)
