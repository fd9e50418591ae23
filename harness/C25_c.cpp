#include "C25.inc.hpp"
LOOP(400, 1, 1, 1, 2, 3, 2, SPARSE, Default)
