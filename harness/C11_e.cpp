#include "C09.inc.hpp"
OCP(3000, 2, 0, 0, 1, 1, 4, 2, 8, 12, double, true, true)
