#include "C25.inc.hpp"
LOOP(400, 3, 2, 0, 0, 2, 3, SPARSE, Default)
