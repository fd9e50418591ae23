#include "C12.inc.hpp"
OCPH(2000, 2, 1, 0, 0, 0, 3, 2)
