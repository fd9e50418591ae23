#include "C16.inc.hpp"
NLP(800, 2, 0, 2, DENSE, 1, Adm, IDE)
