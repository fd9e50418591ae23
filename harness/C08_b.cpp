#include "C08.inc.hpp"
ADD(d5, 10000, double, 5, false)
