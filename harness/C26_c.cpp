#include "C26.inc.hpp"
OPS(8000, double, Ch, 2, 1, 2, 2, 3, 3)
OPS(8000, double, Le, 3, 2, 1, 0, 1, 2)
