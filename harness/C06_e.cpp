#include "C06.inc.hpp"
ADDU(20000, 3, 2, 1, 1, 2)
ADDU(20000, 2, 1, 2, 1, 3)
