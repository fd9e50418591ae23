#include "C15.inc.hpp"
NLP(600, 5, 2, 2, DENSE, 2, Box, IDE)
