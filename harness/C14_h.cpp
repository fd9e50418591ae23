#include "C14.inc.hpp"
NLP(600, 6, 0, 4, DENSE, 2, Box, IDE)
