#include "C02.inc.hpp"
SPARSE_B(5, 4, 3000)
