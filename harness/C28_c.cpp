#include "C28.inc.hpp"
RBF(double, 3, 20000)
