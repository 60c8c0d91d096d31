// Arbitrary (uninterpreted) cost function shared by the optimal-control harnesses.
#pragma once
#include "common.h"
#include <ct/optcon/optcon.h>
using namespace ct::optcon;
// intermediate cost L(x,u,t), terminal cost F(x,t), exact gradients, Hessians arbitrary functions of the same point
template <size_t N, size_t M>
struct UFCost : public CostFunctionQuadratic<N, M>
{
    typedef CostFunctionQuadratic<N, M> B;
    typedef typename B::state_matrix_t MN;
    typedef typename B::control_matrix_t MM;
    typedef typename B::control_state_matrix_t MMN;
    std::string nm;
    UFCost(const std::string& n = "L") : nm(n) {}
    UFCost* clone() const override { return new UFCost(*this); }
    double L(const StateVector<N>& x, const ControlVector<M>& u, double t) const { return symUF(nm, catT(x, u, t)); }
    double F(const StateVector<N>& x, double t) const { return symUF(nm + "f", catT(x, t)); }
    StateVector<N> Lx(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        StateVector<N> r;
        for (size_t i = 0; i < N; i++) r(i) = symDUF(nm, i, catT(x, u, t));
        return r;
    }
    ControlVector<M> Lu(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        ControlVector<M> r;
        for (size_t i = 0; i < M; i++) r(i) = symDUF(nm, N + i, catT(x, u, t));
        return r;
    }
    StateVector<N> Fx(const StateVector<N>& x, double t) const
    {
        StateVector<N> r;
        for (size_t i = 0; i < N; i++) r(i) = symDUF(nm + "f", i, catT(x, t));
        return r;
    }
    static std::string ij(size_t i, size_t j) { return ::S(std::min(i, j)) + ::S(std::max(i, j)); }
    MN Lxx(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        MN r;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symUF(nm + "xx" + ij(i, j), catT(x, u, t));
        return r;
    }
    MM Luu(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        MM r;
        for (size_t i = 0; i < M; i++)
            for (size_t j = 0; j < M; j++) r(i, j) = symUF(nm + "uu" + ij(i, j), catT(x, u, t));
        return r;
    }
    MMN Lux(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        MMN r;
        for (size_t i = 0; i < M; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symUF(nm + "ux" + ::S(i) + ::S(j), catT(x, u, t));
        return r;
    }
    MN Fxx(const StateVector<N>& x, double t) const
    {
        MN r;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symUF(nm + "fxx" + ij(i, j), catT(x, t));
        return r;
    }
    double evaluateIntermediate() override { return L(this->x_, this->u_, this->t_); }
    double evaluateTerminal() override { return F(this->x_, this->t_); }
    typename B::state_vector_t stateDerivativeIntermediate() override { return Lx(this->x_, this->u_, this->t_); }
    typename B::state_vector_t stateDerivativeTerminal() override { return Fx(this->x_, this->t_); }
    typename B::control_vector_t controlDerivativeIntermediate() override { return Lu(this->x_, this->u_, this->t_); }
    typename B::control_vector_t controlDerivativeTerminal() override { return ControlVector<M>::Zero(); }
    MM controlSecondDerivativeIntermediate() override { return Luu(this->x_, this->u_, this->t_); }
    MM controlSecondDerivativeTerminal() override { return MM::Zero(); }
    MMN stateControlDerivativeIntermediate() override { return Lux(this->x_, this->u_, this->t_); }
    MMN stateControlDerivativeTerminal() override { return MMN::Zero(); }
    MN stateSecondDerivativeIntermediate() override { return Lxx(this->x_, this->u_, this->t_); }
    MN stateSecondDerivativeTerminal() override { return Fxx(this->x_, this->t_); }
};
// exact linearisation of UFDiscSys
template <size_t N, size_t M>
struct UFDiscLin : public DiscreteLinearSystem<N, M>
{
    std::string nm;
    UFDiscLin(const std::string& n = "F") : nm(n) {}
    UFDiscLin* clone() const override { return new UFDiscLin(*this); }
    StateMatrix<N> A(const StateVector<N>& x, const ControlVector<M>& u, int n) const
    {
        StateMatrix<N> r;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symDUF(nm + ::S(i), j, catT(x, u, n));
        return r;
    }
    StateControlMatrix<N, M> B(const StateVector<N>& x, const ControlVector<M>& u, int n) const
    {
        StateControlMatrix<N, M> r;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < M; j++) r(i, j) = symDUF(nm + ::S(i), N + j, catT(x, u, n));
        return r;
    }
    void getAandB(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& x_next, const int n, size_t subSteps, StateMatrix<N>& Am, StateControlMatrix<N, M>& Bm) override
    {
        Am = A(x, u, n);
        Bm = B(x, u, n);
    }
    using DiscreteLinearSystem<N, M>::getAandB;
};
const NLOptConSettings::NLOCP_ALGORITHM ALGS[] = {NLOptConSettings::ILQR, NLOptConSettings::GNMS, NLOptConSettings::MS_ILQR,
    NLOptConSettings::SS_OL, NLOptConSettings::SS_CL, NLOptConSettings::GNMS_M_OL, NLOptConSettings::GNMS_M_CL};
inline bool closedLoop(int a) { return a == 0 || a == 2 || a == 4 || a == 6; }
inline bool singleShooting(int a) { return a == 0 || a == 3 || a == 4; }
inline NLOptConSettings nlocSettings(int alg, double dt, int kshot)
{
    NLOptConSettings s;
    s.nlocp_algorithm = ALGS[alg];
    s.dt = dt;
    s.K_shot = kshot;
    s.nThreads = 1;
    s.nThreadsEigen = 1;
    s.epsilon = 0;
    s.min_cost_improvement = 0;
    s.printSummary = false;
    s.fixedHessianCorrection = true;
    return s;
}
