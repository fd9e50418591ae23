#include "C20.inc.hpp"
pbt::Reg l1("lagrange_2x4", lagrange<double, 2, 4>, 20000, 300000), l2("lagrange_1x6", lagrange<double, 1, 6>, 20000, 300000), l3("lagrange_float_3x3", lagrange<float, 3, 3>, 20000, 300000);
