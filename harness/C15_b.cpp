#include "C15.inc.hpp"
NLP(1000, 3, 1, 2, DENSE, 3, Adm, IDE)
