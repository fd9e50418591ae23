#include "C15.inc.hpp"
NLP(800, 1, 0, 1, DENSE, 3, Box, IDE)
NLP(800, 2, 1, 0, DENSE, 4, Adm, IDE)
