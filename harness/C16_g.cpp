#include "C16.inc.hpp"
NLP(800, 4, 0, 0, DENSE, 0, Box, IDE)
