#include "C16.inc.hpp"
NLP(1000, 3, 1, 2, DENSE, 0, Adm, IDE)
