#include "C25.inc.hpp"
LOOP(400, 2, 2, 0, 1, 2, 2, DENSE, Default)
