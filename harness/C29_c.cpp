#include "C29.inc.hpp"
NLPI(4000, 2, 1, 1, 1)
NLPI(4000, 3, 2, 0, 0)
NLPI(4000, 2, 0, 2, 1)
NLPI(4000, 3, 0, 0, 2)
NLPI(4000, 4, 2, 3, 1)
