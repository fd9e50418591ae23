#include "C29.inc.hpp"
OCPI(2000, 1, 1, 0, 0, 0, 2, 1, DENSE)
OCPI(2000, 2, 1, 1, 1, 1, 2, 2, DENSE)
