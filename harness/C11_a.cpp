#include "C09.inc.hpp"
OCP(3000, 2, 1, 0, 0, 0, 3, 2, 8, 12, double, true, true)
