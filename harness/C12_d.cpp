#include "C12.inc.hpp"
OCPH(1200, 2, 2, 2, 0, 1, 5, 1)
