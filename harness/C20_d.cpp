#include "C20.inc.hpp"
LE(4, double); LE(6, double);
