#include "C26.inc.hpp"
OPS(8000, double, Ch, 4, 1, 1, 0, 1, 1)
OPS(8000, double, Le, 4, 1, 2, 1, 1, 1)
