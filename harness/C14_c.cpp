#include "C14.inc.hpp"
NLP(800, 3, 1, 2, SPARSE, 1, Box, IDE)
