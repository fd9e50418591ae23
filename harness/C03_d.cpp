#include "C03.inc.hpp"
ADD(boxADMM, 5, 4)
