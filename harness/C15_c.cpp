#include "C15.inc.hpp"
NLP(800, 4, 1, 1, DENSE, 4, Box, RUI(4, 2, DENSE))
