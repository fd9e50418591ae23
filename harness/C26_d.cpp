#include "C26.inc.hpp"
OPS(4000, double, Ch, 5, 2, 2, 0, 1, 2)
OPS(8000, double, Le, 5, 1, 1, 1, 1, 2)
