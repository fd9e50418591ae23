#include "C07.inc.hpp"
ADD(30000, 2, 0, 0, 1)
ADD(10000, 7, 3, 2, 0)
