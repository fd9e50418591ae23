#include "C28.inc.hpp"
RBF(float, 3, 20000)
