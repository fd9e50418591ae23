#include "C26.inc.hpp"
OPS(8000, double, Ch, 3, 2, 1, 1, 2, 2)
OPS(8000, double, Le, 4, 1, 2, 1, 1, 3)
