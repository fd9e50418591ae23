#pragma once
#include <functional>
#include "IpSolveStatistics.hpp"
namespace Ipopt {
class OptionsList : public ReferencedObject {
public:
    std::map<std::string, std::string> s; std::map<std::string, double> d; std::map<std::string, int> i;
    bool SetNumericValue(const std::string& k, Number v, bool = true, bool = false) { d[k] = v; return true; }
    bool SetIntegerValue(const std::string& k, Index v, bool = true, bool = false) { i[k] = v; return true; }
    bool SetStringValue(const std::string& k, const std::string& v, bool = true, bool = false) { s[k] = v; return true; }
};
class IpoptApplication : public ReferencedObject {
    SmartPtr<OptionsList> m_o; SmartPtr<SolveStatistics> m_s;
public:
    IpoptApplication() : m_o(new OptionsList), m_s(new SolveStatistics) {}
    static std::function<ApplicationReturnStatus(TNLP&, SolveStatistics&)>& driver() { static std::function<ApplicationReturnStatus(TNLP&, SolveStatistics&)> f; return f; }
    SmartPtr<OptionsList> Options() { return m_o; } SmartPtr<SolveStatistics> Statistics() { return m_s; }
    ApplicationReturnStatus Initialize() { return Solve_Succeeded; }
    ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP>& t) { return driver()(*t, *m_s); }
};
}
inline Ipopt::IpoptApplication* IpoptApplicationFactory() { return new Ipopt::IpoptApplication; }
