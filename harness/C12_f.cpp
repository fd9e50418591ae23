#include "C12.inc.hpp"
OCPH(1500, 2, 3, 0, 1, 2, 2, 2)
