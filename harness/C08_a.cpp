#include "C08.inc.hpp"
ADD(d3, 20000, double, 3, false)
