#include "C20.inc.hpp"
CH(2, double); CH(3, double); CH(5, double); CH(8, double); CH(4, float);
