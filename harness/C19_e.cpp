#include "C19.inc.hpp"
LE(6, double); LE(7, double);
