#include "C09.inc.hpp"
OCP(300, 4, 4, 0, 1, 2, 5, 4, 0, 3, double, true, true)
