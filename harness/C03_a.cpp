#include "C03.inc.hpp"
ADD(ADMM, 3, 2)
