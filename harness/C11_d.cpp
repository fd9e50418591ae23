#include "C09.inc.hpp"
OCP(2000, 2, 2, 2, 0, 1, 5, 1, 8, 12, double, true, true)
