#include "C13.inc.hpp"
POLY(500, 2, 1, 9, 2)
POLY(1000, 1, 1, 12, 1)
OPER(500, 2, 8, 2)
