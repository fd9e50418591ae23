#include "C28.inc.hpp"
RBF(double, 2, 20000)
