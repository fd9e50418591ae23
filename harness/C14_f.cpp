#include "C14.inc.hpp"
NLP(600, 3, 1, 1, SPARSE, 1, Box, RUI(3, 2, SPARSE))
