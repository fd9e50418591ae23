#include "C28.inc.hpp"
RBF(double, 1, 20000)
