#include "C06.inc.hpp"
ADD(30000, 4, 1, 0, 2)
ADD(30000, 1, 1, 1, 1)
