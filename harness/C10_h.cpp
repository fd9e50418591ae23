#include "C09.inc.hpp"
OCP(300, 3, 3, 1, 0, 2, 7, 3, 4, 7, double, true, true)
