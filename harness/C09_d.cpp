#include "C09.inc.hpp"
OCP(3000, 2, 0, 0, 1, 1, 4, 2, 0, 3, double, true, true)
OCP(3000, 1, 1, 0, 0, 2, 1, 3, 0, 3, double, true, true)
