#include "C15.inc.hpp"
NLP(800, 3, 1, 2, SPARSE, 3, Box, IDE)
