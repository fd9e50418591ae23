#include "C03.inc.hpp"
ADD(ADMM, 2, 3)
AGREE(3, 2)
