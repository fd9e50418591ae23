#include "C09.inc.hpp"
OCP(3000, 2, 3, 0, 1, 2, 2, 2, 0, 3, float, true, true)
