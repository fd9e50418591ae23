#include "C28.inc.hpp"
RBF(double, 5, 20000)
