#include "C03.inc.hpp"
ADD(ADMM, 5, 4)
