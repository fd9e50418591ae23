#include "C03.inc.hpp"
ADD(boxADMM, 7, 3)
