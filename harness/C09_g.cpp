#include "C09.inc.hpp"
OCP(600, 3, 3, 1, 0, 2, 7, 3, 0, 3, double, true, true)
