#include "C14.inc.hpp"
NLP(800, 4, 1, 1, DENSE, 0, Box, RUI(4, 2, DENSE))
