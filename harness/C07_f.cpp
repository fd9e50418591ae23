#include "C07.inc.hpp"
ADDU(20000, 3, 1, 2, 1, 1)
