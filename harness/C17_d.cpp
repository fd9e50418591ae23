#include "C17.inc.hpp"
BF(1000, 1, 1, 3, 4, 2)
BF(1000, 2, 3, 0, 3, 3)
