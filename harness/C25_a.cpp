#include "C25.inc.hpp"
LOOP(400, 2, 1, 0, 0, 3, 2, DENSE, Exact)
