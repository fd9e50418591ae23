#pragma once
#include "IpTNLP.hpp"
namespace Ipopt {
class SolveStatistics : public ReferencedObject {
public:
    Index iter = 0; Number f = 0, dual = 0, viol = 0, bound = 0, compl_ = 0, kkt = 0;
    Index IterationCount() const { return iter; } Number FinalObjective() const { return f; }
    void Infeasibilities(Number& dual_inf, Number& constr_viol, Number& varbounds_viol, Number& complementarity, Number& kkt_error) const { dual_inf = dual; constr_viol = viol; varbounds_viol = bound; complementarity = compl_; kkt_error = kkt; }
};
}
