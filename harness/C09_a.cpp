#include "C09.inc.hpp"
OCP(3000, 2, 1, 0, 0, 0, 3, 2, 0, 3, double, true, true)
OCP(3000, 1, 2, 3, 1, 3, 3, 2, 0, 3, double, true, true)
