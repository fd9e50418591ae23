#include "C15.inc.hpp"
NLP(800, 3, 1, 1, SPARSE, 3, Adm, RUI(3, 2, SPARSE))
