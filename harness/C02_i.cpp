#include "C02.inc.hpp"
// matrices beyond the limit of static allocation
DENSE_A(130, 4, 10) DENSE_B(130, 4, 10)
