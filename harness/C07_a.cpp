#include "C07.inc.hpp"
ADD(50000, 3, 2, 1, 1)
ADD(30000, 2, 0, 2, 0)
