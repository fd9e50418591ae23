#include "C01.inc.hpp"
SPARSE_A(2, 1)
SPARSE_A(5, 4)
