#include "C12.inc.hpp"
OCPH(2000, 2, 0, 0, 1, 1, 4, 2)
