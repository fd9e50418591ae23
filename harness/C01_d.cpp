#include "C01.inc.hpp"
SPARSE_B(2, 1)
SPARSE_B(5, 4)
