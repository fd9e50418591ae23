#include "C19.inc.hpp"
CH(2, double); CH(3, double); CH(4, double); CH(5, double);
