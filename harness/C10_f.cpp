#include "C09.inc.hpp"
OCP(2000, 2, 3, 0, 1, 2, 2, 2, 4, 7, float, true, true)
