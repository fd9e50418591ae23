#include "C13.inc.hpp"
POLY(1000, 2, 1, 6, 3)
OPER(1000, 3, 5, 3)
OPER(1000, 1, 4, 2)
