#include "C12.inc.hpp"
OCPH(1000, 1, 2, 3, 1, 3, 3, 2)
