#include "C09.inc.hpp"
OCP(3000, 3, 2, 1, 2, 2, 2, 3, 0, 3, double, true, true)
