#include "C25.inc.hpp"
LOOP(400, 1, 2, 2, 1, 2, 2, DENSE, Default)
