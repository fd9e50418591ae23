#include "C19.inc.hpp"
LE(4, double); LE(5, double);
