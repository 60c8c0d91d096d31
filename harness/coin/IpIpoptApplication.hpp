#pragma once
#include "IpSolveStatistics.hpp"
namespace Ipopt {
enum ApplicationReturnStatus {
    Solve_Succeeded = 0,
    Solved_To_Acceptable_Level = 1,
    Infeasible_Problem_Detected = 2,
    Search_Direction_Becomes_Too_Small = 3,
    Diverging_Iterates = 4,
    User_Requested_Stop = 5,
    Feasible_Point_Found = 6,
    Maximum_Iterations_Exceeded = -1,
    Restoration_Failed = -2,
    Internal_Error = -199
};
class OptionsList
{
public:
    std::map<std::string, Number> num;
    std::map<std::string, Index> in;
    std::map<std::string, std::string> str;
    bool SetNumericValue(const std::string& t, Number v, bool = true, bool = false) { return num[t] = v, true; }
    bool SetIntegerValue(const std::string& t, Index v, bool = true, bool = false) { return in[t] = v, true; }
    bool SetStringValue(const std::string& t, const std::string& v, bool = true, bool = false) { return str[t] = v, true; }
    bool SetNumericValueIfUnset(const std::string& t, Number v, bool = true, bool = false) { return num.emplace(t, v), true; }
    bool SetIntegerValueIfUnset(const std::string& t, Index v, bool = true, bool = false) { return in.emplace(t, v), true; }
    bool SetStringValueIfUnset(const std::string& t, const std::string& v, bool = true, bool = false) { return str.emplace(t, v), true; }
};
class IpoptApplication
{
    OptionsList o_;
    SolveStatistics s_;

public:
    // the optimiser: decided by the harness
    static std::function<ApplicationReturnStatus(TNLP&, OptionsList&)>& optimizer()
    {
        static std::function<ApplicationReturnStatus(TNLP&, OptionsList&)> f;
        return f;
    }
    IpoptApplication(bool = true, bool = false) {}
    virtual ~IpoptApplication() {}
    SmartPtr<OptionsList> Options() { return SmartPtr<OptionsList>(&o_); }
    SmartPtr<SolveStatistics> Statistics() { return SmartPtr<SolveStatistics>(&s_); }
    ApplicationReturnStatus Initialize(bool = false) { return Solve_Succeeded; }
    ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP>& t) { return optimizer()(*t, o_); }
    ApplicationReturnStatus ReOptimizeTNLP(const SmartPtr<TNLP>& t) { return optimizer()(*t, o_); }
};
}
