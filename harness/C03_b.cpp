#include "C03.inc.hpp"
ADD(boxADMM, 3, 2)
