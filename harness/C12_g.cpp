#include "C12.inc.hpp"
OCPH(1500, 3, 1, 2, 1, 0, 2, 1)
