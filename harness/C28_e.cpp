#include "C28.inc.hpp"
RBF(float, 2, 20000)
