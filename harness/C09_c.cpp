#include "C09.inc.hpp"
OCP(3000, 2, 2, 2, 0, 1, 5, 1, 0, 3, double, true, true)
