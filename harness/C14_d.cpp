#include "C14.inc.hpp"
NLP(600, 5, 2, 2, SPARSE, 2, Adm, IDE)
