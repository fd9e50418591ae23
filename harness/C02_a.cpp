#include "C02.inc.hpp"
DENSE_A(2, 1, 4000) DENSE_A(4, 3, 3000)
