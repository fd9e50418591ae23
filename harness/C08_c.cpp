#include "C08.inc.hpp"
ADD1(dyn, 15000, double, 4, true)
ADD1(f4, 15000, float, 4, false)
