#include "C12.inc.hpp"
OCPH(1000, 3, 2, 1, 2, 2, 2, 3)
