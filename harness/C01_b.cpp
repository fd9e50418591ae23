#include "C01.inc.hpp"
DENSE_B(2, 1)
DENSE_B(4, 3)
DENSE_B(3, 6)
