#include "C26.inc.hpp"
OPS(8000, double, Ch, 2, 3, 1, 1, 1, 1)
OPS(8000, double, Le, 2, 2, 2, 2, 2, 4)
