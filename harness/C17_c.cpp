#include "C17.inc.hpp"
BF(1000, 3, 2, 2, 2, 2)
BF(1500, 2, 2, 1, 2, 3)
