#include "C09.inc.hpp"
OCP(3000, 3, 1, 2, 1, 0, 2, 1, 0, 3, double, true, true)
