// Stand-in for the part of the osqp-eigen interface (0.6 - 0.8) that PolyMPC uses (the library is not installed): same names and
// calling conventions - vectors are handed over by reference, matrices are copied, a matrix that is set or a solver that is
// initialised has to be cleared before it can be set again (otherwise the call fails and nothing changes), the work space copies
// problem data and settings when it is set up and the Hessian is reduced to its upper triangle. Instead of the ADMM iteration,
// solveProblem() runs a driver supplied by the test.
#pragma once
#include <functional>
#include <memory>
#include <Eigen/Dense>
#include <Eigen/SparseCore>
using c_float = double; using c_int = long long;
enum { OSQP_DUAL_INFEASIBLE_INACCURATE = 4, OSQP_PRIMAL_INFEASIBLE_INACCURATE = 3, OSQP_SOLVED_INACCURATE = 2, OSQP_SOLVED = 1, OSQP_MAX_ITER_REACHED = -2, OSQP_PRIMAL_INFEASIBLE = -3, OSQP_DUAL_INFEASIBLE = -4, OSQP_SIGINT = -5, OSQP_TIME_LIMIT_REACHED = -6, OSQP_NON_CVX = -7, OSQP_UNSOLVED = -10 };
struct OSQPInfo { c_int iter = 0; c_int status_val = OSQP_UNSOLVED; c_float obj_val = 0, pri_res = 0, dua_res = 0; c_int rho_updates = 0; c_float rho_estimate = 0; };
struct OSQPSettings { c_float rho = 0.1, sigma = 1e-6; c_int scaling = 10, adaptive_rho = 1, adaptive_rho_interval = 0; c_float adaptive_rho_tolerance = 5, adaptive_rho_fraction = 0.4; c_int max_iter = 4000; c_float eps_abs = 1e-3, eps_rel = 1e-3, eps_prim_inf = 1e-4, eps_dual_inf = 1e-4, alpha = 1.6; c_int linsys_solver = 0; c_float delta = 1e-6; c_int polish = 0, polish_refine_iter = 3, verbose = 1, scaled_termination = 0, check_termination = 25, warm_start = 1; c_float time_limit = 0; };
struct OSQPWorkspace { Eigen::MatrixXd P, A; Eigen::VectorXd q, l, u, x, y; OSQPSettings settings; OSQPInfo* info; OSQPInfo info_; OSQPWorkspace() : info(&info_) {} };
namespace OsqpEigen {
class Settings {
public:
    OSQPSettings s;
    void setRho(double v) { s.rho = v; } void setSigma(double v) { s.sigma = v; } void setScaling(int v) { s.scaling = v; } void setAdaptiveRho(bool v) { s.adaptive_rho = v; } void setAdaptiveRhoInterval(int v) { s.adaptive_rho_interval = v; }
    void setAdaptiveRhoTolerance(double v) { s.adaptive_rho_tolerance = v; } void setAdaptiveRhoFraction(double v) { s.adaptive_rho_fraction = v; } void setMaxIteration(int v) { s.max_iter = v; } void setAbsoluteTolerance(double v) { s.eps_abs = v; }
    void setRelativeTolerance(double v) { s.eps_rel = v; } void setPrimalInfeasibilityTolerance(double v) { s.eps_prim_inf = v; } void setDualInfeasibilityTolerance(double v) { s.eps_dual_inf = v; } void setAlpha(double v) { s.alpha = v; }
    void setLinearSystemSolver(int v) { s.linsys_solver = v; } void setDelta(double v) { s.delta = v; } void setPolish(bool v) { s.polish = v; } void setPolishRefineIter(int v) { s.polish_refine_iter = v; } void setVerbosity(bool v) { s.verbose = v; }
    void setScaledTerimination(bool v) { s.scaled_termination = v; } void setCheckTermination(int v) { s.check_termination = v; } void setWarmStart(bool v) { s.warm_start = v; } void setTimeLimit(double v) { s.time_limit = v; }
};
class Data {
    friend class Solver; int n = -1, m = -1; bool hs = false, as = false; Eigen::MatrixXd P, A; const double *q = nullptr, *l = nullptr, *u = nullptr;
public:
    using Vec = Eigen::Matrix<c_float, Eigen::Dynamic, 1>;
    void setNumberOfVariables(int v) { n = v; } void setNumberOfConstraints(int v) { m = v; }
    void clearHessianMatrix() { hs = false; } void clearLinearConstraintsMatrix() { as = false; }
    template <class D> bool setHessianMatrix(const Eigen::SparseCompressedBase<D>& h) { if (hs || h.rows() != n || h.cols() != n) return false; P = Eigen::MatrixXd(h.derived()).template triangularView<Eigen::Upper>(); return hs = true; }
    template <class D> bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a) { if (as || a.rows() != m || a.cols() != n) return false; A = Eigen::MatrixXd(a.derived()); return as = true; }
    bool setGradient(Eigen::Ref<Vec> v) { if (v.rows() != n) return false; q = v.data(); return true; } bool setLowerBound(Eigen::Ref<Vec> v) { if (v.rows() != m) return false; l = v.data(); return true; } bool setUpperBound(Eigen::Ref<Vec> v) { if (v.rows() != m) return false; u = v.data(); return true; }
    bool isSet() const { return n >= 0 && m >= 0 && hs && as && q && l && u; }
};
class Solver {
    std::unique_ptr<Settings> m_settings{new Settings}; std::unique_ptr<Data> m_data{new Data}; std::unique_ptr<OSQPWorkspace> m_ws; Eigen::VectorXd m_sol, m_dual;
public:
    using CVec = Eigen::Ref<const Eigen::Matrix<c_float, Eigen::Dynamic, 1>>;
    static std::function<void(OSQPWorkspace&)>& driver() { static std::function<void(OSQPWorkspace&)> f; return f; }
    const std::unique_ptr<Settings>& settings() const { return m_settings; } const std::unique_ptr<Data>& data() const { return m_data; } const std::unique_ptr<OSQPWorkspace>& workspace() const { return m_ws; }
    bool isInitialized() const { return bool(m_ws); } void clearSolver() { m_ws.reset(); }
    bool initSolver() {
        if (m_ws || !m_data->isSet()) return false; m_ws.reset(new OSQPWorkspace); m_ws->P = m_data->P; m_ws->A = m_data->A; m_ws->q = Eigen::Map<const Eigen::VectorXd>(m_data->q, m_data->n); m_ws->l = Eigen::Map<const Eigen::VectorXd>(m_data->l, m_data->m); m_ws->u = Eigen::Map<const Eigen::VectorXd>(m_data->u, m_data->m);
        m_ws->x = Eigen::VectorXd::Zero(m_data->n); m_ws->y = Eigen::VectorXd::Zero(m_data->m); m_ws->settings = m_settings->s; return true;
    }
    bool solveProblem() { if (!m_ws) return false; driver()(*m_ws); return true; } bool solve() { return solveProblem(); }
    const Eigen::VectorXd& getSolution() { m_sol = m_ws->x; return m_sol; } const Eigen::VectorXd& getDualSolution() { m_dual = m_ws->y; return m_dual; }
    bool updateGradient(const CVec& v) { if (!m_ws || v.rows() != m_ws->q.rows()) return false; m_ws->q = v; return true; }
    bool updateBounds(const CVec& a, const CVec& b) { if (!m_ws || a.rows() != m_ws->l.rows() || b.rows() != m_ws->u.rows()) return false; m_ws->l = a; m_ws->u = b; return true; }
    bool updateLowerBound(const CVec& a) { if (!m_ws) return false; m_ws->l = a; return true; } bool updateUpperBound(const CVec& a) { if (!m_ws) return false; m_ws->u = a; return true; }
    template <class D> bool updateHessianMatrix(const Eigen::SparseCompressedBase<D>& h) { if (!m_ws || h.rows() != m_ws->P.rows() || h.cols() != m_ws->P.cols()) return false; m_ws->P = Eigen::MatrixXd(h.derived()).template triangularView<Eigen::Upper>(); return true; }
    template <class D> bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a) { if (!m_ws || a.rows() != m_ws->A.rows() || a.cols() != m_ws->A.cols()) return false; m_ws->A = Eigen::MatrixXd(a.derived()); return true; }
    bool setWarmStart(const CVec& x, const CVec& y) { if (!m_ws || x.rows() != m_ws->x.rows() || y.rows() != m_ws->y.rows()) return false; m_ws->x = x; m_ws->y = y; return true; }
    bool setPrimalVariable(const CVec& x) { if (!m_ws) return false; m_ws->x = x; return true; } bool setDualVariable(const CVec& y) { if (!m_ws) return false; m_ws->y = y; return true; }
};
}
