#include "C16.inc.hpp"
NLP(800, 3, 1, 1, SPARSE, 2, Adm, RUI(3, 2, SPARSE))
