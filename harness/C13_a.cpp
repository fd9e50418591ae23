#include "C13.inc.hpp"
POLY(2000, 2, 1, 3, 2)
POLY(2000, 1, 1, 2, 3)
OPER(1000, 2, 3, 2)
