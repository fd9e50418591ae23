#include "C02.inc.hpp"
DENSE_B(4, 3, 3000) DENSE_B(3, 6, 3000)
