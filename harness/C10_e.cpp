#include "C09.inc.hpp"
OCP(3000, 2, 0, 0, 1, 1, 4, 2, 4, 7, double, true, true)
