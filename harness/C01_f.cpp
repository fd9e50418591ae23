#include "C01.inc.hpp"
// single precision
FLT(ADMM<4 COMMA 3 COMMA float>, 4, 3, false, admm_dense_4x3f)
FLT(boxADMM<4 COMMA 3 COMMA float>, 4, 3, false, box_dense_4x3f)
FLT(boxADMM<5 COMMA 4 COMMA float COMMA SPARSE COMMA linear_solver_traits<SPARSE>::default_solver>, 5, 4, true, box_sparse_5x4f)
