#include "C16.inc.hpp"
NLP(800, 3, 1, 1, DENSE, 0, Box, RUI(3, 2, DENSE))
