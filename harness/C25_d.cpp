#include "C25.inc.hpp"
LOOP(400, 2, 2, 0, 1, 3, 2, SPARSE, Exact)
