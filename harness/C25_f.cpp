#include "C25.inc.hpp"
LOOP(400, 2, 1, 1, 1, 4, 1, DENSE, Exact)
