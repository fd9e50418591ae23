#include "C02.inc.hpp"
SPARSE_A(5, 4, 3000)
