#include "C15.inc.hpp"
NLP(800, 2, 0, 2, DENSE, 1, Adm, IDE)
NLP(600, 3, 0, 0, DENSE, 0, Box, RUI(3, 0, DENSE))
