#include "C03.inc.hpp"
ADD(ADMM, 7, 3)
