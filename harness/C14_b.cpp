#include "C14.inc.hpp"
NLP(1000, 2, 0, 0, DENSE, 0, Box, IDE)
NLP(800, 5, 2, 3, DENSE, 0, Adm, IDE)
