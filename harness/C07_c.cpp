#include "C07.inc.hpp"
ADD(30000, 5, 2, 3, 3)
