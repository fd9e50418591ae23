#include "C20.inc.hpp"
LE(2, double); LE(3, double);
