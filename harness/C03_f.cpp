#include "C03.inc.hpp"
ADD(boxADMM, 2, 3)
AGREE(5, 3)
