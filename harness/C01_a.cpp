#include "C01.inc.hpp"
DENSE_A(2, 1)
DENSE_A(4, 3)
DENSE_A(3, 6)
