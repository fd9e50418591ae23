#include "C26.inc.hpp"
OPS(8000, double, Ch, 1, 2, 1, 1, 2, 3)
OPS(8000, double, Ch, 6, 1, 0, 1, 1, 2)
