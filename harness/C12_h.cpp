#include "C12.inc.hpp"
OCPH(300, 3, 3, 1, 0, 2, 7, 3)
