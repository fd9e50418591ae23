// Stand-in for the part of the IPOPT C++ interface that PolyMPC uses (the library is not installed): same names, types and
// calling conventions; instead of an optimiser, OptimizeTNLP runs a driver supplied by the test.
#pragma once
#include <cstddef>
#include <map>
#include <string>
namespace Ipopt {
using Index = int; using Number = double;
enum ApplicationReturnStatus { Solve_Succeeded = 0, Solved_To_Acceptable_Level = 1, Infeasible_Problem_Detected = 2, Maximum_Iterations_Exceeded = -1, Internal_Error = -199 };
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY };
class IpoptData; class IpoptCalculatedQuantities;
class ReferencedObject { public: ReferencedObject() : m_count(0) {} virtual ~ReferencedObject() {} mutable int m_count; };
template <class T> class SmartPtr {
    T* m_p = nullptr; void take(T* p) { if (p) ++p->m_count; if (m_p && --m_p->m_count == 0) delete m_p; m_p = p; }
public:
    SmartPtr() {} SmartPtr(T* p) { take(p); } SmartPtr(const SmartPtr& o) { take(o.m_p); } template <class U> SmartPtr(const SmartPtr<U>& o) { take(o.raw()); } ~SmartPtr() { take(nullptr); }
    SmartPtr& operator=(T* p) { take(p); return *this; } SmartPtr& operator=(const SmartPtr& o) { take(o.m_p); return *this; }
    T* operator->() const { return m_p; } T& operator*() const { return *m_p; } T* raw() const { return m_p; }
};
class TNLP : public ReferencedObject {
public:
    enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 };
    virtual bool get_nlp_info(Index& n, Index& m, Index& nnz_jac_g, Index& nnz_h_lag, IndexStyleEnum& index_style) = 0;
    virtual bool get_bounds_info(Index n, Number* x_l, Number* x_u, Index m, Number* g_l, Number* g_u) = 0;
    virtual bool get_starting_point(Index n, bool init_x, Number* x, bool init_z, Number* z_L, Number* z_U, Index m, bool init_lambda, Number* lambda) = 0;
    virtual bool eval_f(Index n, const Number* x, bool new_x, Number& obj_value) = 0;
    virtual bool eval_grad_f(Index n, const Number* x, bool new_x, Number* grad_f) = 0;
    virtual bool eval_g(Index n, const Number* x, bool new_x, Index m, Number* g) = 0;
    virtual bool eval_jac_g(Index n, const Number* x, bool new_x, Index m, Index nele_jac, Index* iRow, Index* jCol, Number* values) = 0;
    virtual bool eval_h(Index n, const Number* x, bool new_x, Number obj_factor, Index m, const Number* lambda, bool new_lambda, Index nele_hess, Index* iRow, Index* jCol, Number* values) { return false; }
    virtual void finalize_solution(SolverReturn status, Index n, const Number* x, const Number* z_L, const Number* z_U, Index m, const Number* g, const Number* lambda, Number obj_value, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq) = 0;
};
}
