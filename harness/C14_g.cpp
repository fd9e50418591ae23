#include "C14.inc.hpp"
NLP(800, 1, 0, 1, DENSE, 1, Box, IDE)
NLP(800, 2, 1, 0, DENSE, 0, Adm, IDE)
