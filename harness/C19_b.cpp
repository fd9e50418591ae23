#include "C19.inc.hpp"
CH(6, double); CH(7, double); CH(8, double); CH(11, double); CH(12, double);
