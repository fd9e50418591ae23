#include "C09.inc.hpp"
OCP(1500, 3, 2, 1, 2, 2, 2, 3, 8, 12, double, true, true)
