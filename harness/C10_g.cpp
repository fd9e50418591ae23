#include "C09.inc.hpp"
OCP(2000, 3, 1, 2, 1, 0, 2, 1, 4, 7, double, true, true)
