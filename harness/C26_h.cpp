#include "C26.inc.hpp"
OPS(4000, double, Ch, 4, 2, 1, 1, 1, 3)
OPS(8000, double, Ch, 7, 1, 1, 0, 1, 1)
