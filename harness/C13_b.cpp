#include "C13.inc.hpp"
POLY(2000, 3, 2, 4, 1)
POLY(1000, 2, 2, 5, 2)
OPER(1000, 2, 5, 1)
