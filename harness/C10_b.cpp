#include "C09.inc.hpp"
OCP(1500, 1, 2, 3, 1, 3, 3, 2, 4, 7, double, true, true)
