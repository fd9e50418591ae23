#include "C17.inc.hpp"
BF(1500, 2, 1, 0, 2, 2)
BF(1500, 1, 2, 1, 3, 2)
