#include "C26.inc.hpp"
OPS(8000, float, Ch, 3, 1, 1, 1, 1, 2)
OPS(8000, float, Le, 4, 1, 1, 0, 1, 2)
