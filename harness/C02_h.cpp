#include "C02.inc.hpp"
// no general constraints; problems beyond the limit of static allocation
DENSE_A(3, 0, 2000) SPARSE_A(3, 0, 2000) SPARSE_B(3, 0, 2000)
