#include "C19.inc.hpp"
CH(3, float); CH(4, float);
LE(2, double); LE(3, double);
