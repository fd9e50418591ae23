// The model predictive controller over generated optimal control problems.
#pragma once
#include "ocp_common.hpp"
#include "solvers/sqp_base.hpp"
#include "solvers/box_admm.hpp"
#include "control/mpc_wrapper.hpp"
#include <memory>
namespace mp {
using VD = Eigen::VectorXd; using MD = Eigen::MatrixXd;
template <class Problem, class QP> class Sqp : public SQPBase<Sqp<Problem, QP>, Problem, QP> {};
template <class O> using Box = boxADMM<O::VAR_SIZE, O::NUM_EQ + O::NUM_INEQ, typename O::scalar_t, O::MATRIXFMT, linear_solver_traits<O::MATRIXFMT>::template default_solver>;
template <int NX, int NU, int NP, int ND, int NG, int P, int S, int FMT, class Sc = double> using Ctl = MPC<oc::Ocp<NX, NU, NP, ND, NG, P, S, FMT, Sc>, Sqp, Box<oc::Ocp<NX, NU, NP, ND, NG, P, S, FMT, Sc>>>;
template <class T> std::shared_ptr<T> make() { return std::allocate_shared<T>(Eigen::aligned_allocator<T>()); }
inline VD vec(pbt::Src& s, int n, double a, bool inf = false) { VD v(n); for (int i = 0; i < n; i++) v(i) = inf && s.flag(0.15) ? (s.flag() ? 1 : -1) * std::numeric_limits<double>::infinity() : s.sym(a); return v; }
}
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
