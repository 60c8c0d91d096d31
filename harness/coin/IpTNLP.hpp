// Stand-in for the IPOPT headers: the same interface, with the optimiser left open (see IpIpoptApplication.hpp).
#pragma once
#include <cstddef>
#include <functional>
#include <map>
#include <string>
namespace Ipopt {
typedef int Index;
typedef int Int;
typedef double Number;
class Referencer
{
public:
    virtual ~Referencer() {}
};
class ReferencedObject
{
    mutable Index n_ = 0;

public:
    virtual ~ReferencedObject() {}
    Index ReferenceCount() const { return n_; }
    void AddRef(const Referencer*) const { n_++; }
    void ReleaseRef(const Referencer*) const { n_--; }
};
template <class T>
class SmartPtr : public Referencer
{
    T* p_;

public:
    SmartPtr(T* p = nullptr) : p_(p) {}
    T* operator->() const { return p_; }
    T& operator*() const { return *p_; }
};
template <class T>
T* GetRawPtr(const SmartPtr<T>& p)
{
    return &*p;
}
template <class T>
bool IsValid(const SmartPtr<T>& p)
{
    return &*p != nullptr;
}
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, CPUTIME_EXCEEDED, STOP_AT_TINY_STEP, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY };
class IpoptData;
class IpoptCalculatedQuantities;
class TNLP : public ReferencedObject
{
public:
    enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 };
    virtual ~TNLP() {}
    virtual bool get_nlp_info(Index& n, Index& m, Index& nnz_jac_g, Index& nnz_h_lag, IndexStyleEnum& index_style) = 0;
    virtual bool get_bounds_info(Index n, Number* x_l, Number* x_u, Index m, Number* g_l, Number* g_u) = 0;
    virtual bool get_starting_point(Index n, bool init_x, Number* x, bool init_z, Number* z_L, Number* z_U, Index m, bool init_lambda, Number* lambda) = 0;
    virtual bool eval_f(Index n, const Number* x, bool new_x, Number& obj_value) = 0;
    virtual bool eval_grad_f(Index n, const Number* x, bool new_x, Number* grad_f) = 0;
    virtual bool eval_g(Index n, const Number* x, bool new_x, Index m, Number* g) = 0;
    virtual bool eval_jac_g(Index n, const Number* x, bool new_x, Index m, Index nele_jac, Index* iRow, Index* jCol, Number* values) = 0;
    virtual bool eval_h(Index, const Number*, bool, Number, Index, const Number*, bool, Index, Index*, Index*, Number*) { return false; }
    virtual void finalize_solution(SolverReturn status, Index n, const Number* x, const Number* z_L, const Number* z_U, Index m, const Number* g, const Number* lambda, Number obj_value, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq) = 0;
};
}
