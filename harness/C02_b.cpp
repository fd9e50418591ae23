#include "C02.inc.hpp"
DENSE_A(3, 6, 3000) DENSE_B(2, 1, 4000)
