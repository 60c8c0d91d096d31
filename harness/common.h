// Arbitrary (uninterpreted) systems and controllers shared by the harnesses.
#pragma once
#include <ct/core/core.h>
#include "sym.h"
#include <memory>
using namespace ct::core;

template <typename V>
std::vector<double> cat(const V& x)
{
    std::vector<double> a;
    for (int i = 0; i < (int)x.size(); i++) a.push_back(x(i));
    return a;
}
template <typename V, typename U>
std::vector<double> cat(const V& x, const U& u)
{
    std::vector<double> a = cat(x);
    for (int i = 0; i < (int)u.size(); i++) a.push_back(u(i));
    return a;
}
template <typename V>
std::vector<double> catT(const V& x, double t)
{
    std::vector<double> a = cat(x);
    a.push_back(t);
    return a;
}
template <typename V, typename U>
std::vector<double> catT(const V& x, const U& u, double t)
{
    std::vector<double> a = cat(x, u);
    a.push_back(t);
    return a;
}
// xdot = f(x,t), f arbitrary
template <size_t N>
struct UFSys : public System<N>
{
    std::string nm;
    UFSys(const std::string& n = "f") : nm(n) {}
    UFSys* clone() const override { return new UFSys(*this); }
    void computeDynamics(const StateVector<N>& x, const double& t, StateVector<N>& d) override
    {
        StateVector<N> r;
        for (size_t i = 0; i < N; i++) r(i) = symUF(nm + S(i), catT(x, t));
        d = r;
    }
    StateVector<N> f(const StateVector<N>& x, double t)
    {
        StateVector<N> d;
        computeDynamics(x, t, d);
        return d;
    }
};
// xdot = f(x,u,t), f arbitrary
template <size_t N, size_t M>
struct UFCtrlSys : public ControlledSystem<N, M>
{
    std::string nm;
    UFCtrlSys(const std::string& n = "f") : nm(n) {}
    UFCtrlSys(std::shared_ptr<Controller<N, M>> c, const std::string& n = "f") : ControlledSystem<N, M>(c), nm(n) {}
    UFCtrlSys* clone() const override { return new UFCtrlSys(*this); }
    void computeControlledDynamics(const StateVector<N>& x, const double& t, const ControlVector<M>& u, StateVector<N>& d) override
    {
        d = f(x, u, t);
    }
    StateVector<N> f(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        StateVector<N> r;
        for (size_t i = 0; i < N; i++) r(i) = symUF(nm + S(i), catT(x, u, t));
        return r;
    }
    StateMatrix<N> A(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        StateMatrix<N> r;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symDUF(nm + S(i), j, catT(x, u, t));
        return r;
    }
    StateControlMatrix<N, M> B(const StateVector<N>& x, const ControlVector<M>& u, double t) const
    {
        StateControlMatrix<N, M> r;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < M; j++) r(i, j) = symDUF(nm + S(i), N + j, catT(x, u, t));
        return r;
    }
};
// the exact linearisation of UFCtrlSys
template <size_t N, size_t M>
struct UFLin : public LinearSystem<N, M>
{
    UFCtrlSys<N, M> s;
    UFLin(const std::string& n = "f") : s(n) {}
    UFLin* clone() const override { return new UFLin(*this); }
    const StateMatrix<N>& getDerivativeState(const StateVector<N>& x, const ControlVector<M>& u, const double t = 0.0) override
    {
        a_ = s.A(x, u, t);
        return a_;
    }
    const StateControlMatrix<N, M>& getDerivativeControl(const StateVector<N>& x, const ControlVector<M>& u, const double t = 0.0) override
    {
        b_ = s.B(x, u, t);
        return b_;
    }
    StateMatrix<N> a_;
    StateControlMatrix<N, M> b_;
};
// u = k(x,t), k arbitrary
template <size_t N, size_t M>
struct UFController : public Controller<N, M>
{
    std::string nm;
    UFController(const std::string& n = "k") : nm(n) {}
    UFController* clone() const override { return new UFController(*this); }
    void computeControl(const StateVector<N>& x, const double& t, ControlVector<M>& u) override
    {
        for (size_t i = 0; i < M; i++) u(i) = symUF(nm + S(i), catT(x, t));
    }
    ControlVector<M> k(const StateVector<N>& x, double t)
    {
        ControlVector<M> u;
        computeControl(x, t, u);
        return u;
    }
};
// one step of the reference schemes
template <size_t N, typename F>
StateVector<N> refEuler(F f, const StateVector<N>& x, double t, double h)
{
    StateVector<N> k = f(x, t);
    return x + h * k;
}
template <size_t N, typename F>
StateVector<N> refRK4(F f, const StateVector<N>& x, double t, double h)
{
    StateVector<N> k1 = f(x, t);
    StateVector<N> k2 = f(StateVector<N>(x + 0.5 * h * k1), t + 0.5 * h);
    StateVector<N> k3 = f(StateVector<N>(x + 0.5 * h * k2), t + 0.5 * h);
    StateVector<N> k4 = f(StateVector<N>(x + h * k3), t + h);
    return x + h / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4);
}
template <typename F>
bool throws(F f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
// p' = fp(x,u), v' = fv(x,u), both arbitrary (2-dimensional symplectic system)
template <size_t P, size_t V, size_t M>
struct UFSymp : public SymplecticSystem<P, V, M>
{
    static const size_t N = P + V;
    std::string nm;
    UFSymp(const std::string& n = "f") : nm(n) {}
    UFSymp* clone() const override { return new UFSymp(*this); }
    // f(x,u): rows 0..P-1 position, rest velocity
    StateVector<N> f(const StateVector<N>& x, const ControlVector<M>& u) const
    {
        StateVector<N> r;
        for (size_t i = 0; i < N; i++) r(i) = symUF(nm + S(i), cat(x, u));
        return r;
    }
    void computePdot(const StateVector<N>& x, const StateVector<V>& v, const ControlVector<M>& u, StateVector<P>& d) override
    {
        StateVector<N> y = x;
        y.template tail<V>() = v;
        d = f(y, u).template head<P>();
    }
    void computeVdot(const StateVector<N>& x, const StateVector<P>& p, const ControlVector<M>& u, StateVector<V>& d) override
    {
        StateVector<N> y = x;
        y.template head<P>() = p;
        d = f(y, u).template tail<V>();
    }
    using SymplecticSystem<P, V, M>::computePdot;
    using SymplecticSystem<P, V, M>::computeVdot;
    StateVector<N> symplecticEuler(const StateVector<N>& x, const ControlVector<M>& u, double h) const
    {
        StateVector<N> y = x, d = f(x, u);
        for (size_t i = 0; i < P; i++) y(i) = x(i) + h * d(i);
        d = f(y, u);
        for (size_t i = P; i < N; i++) y(i) = x(i) + h * d(i);
        return y;
    }
};
template <size_t P, size_t V, size_t M>
struct UFSympLin : public LinearSystem<P + V, M>
{
    static const size_t N = P + V;
    std::string nm;
    UFSympLin(const std::string& n = "f") : nm(n) {}
    UFSympLin* clone() const override { return new UFSympLin(*this); }
    const StateMatrix<N>& getDerivativeState(const StateVector<N>& x, const ControlVector<M>& u, const double t = 0.0) override
    {
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) a_(i, j) = symDUF(nm + S(i), j, cat(x, u));
        return a_;
    }
    const StateControlMatrix<N, M>& getDerivativeControl(const StateVector<N>& x, const ControlVector<M>& u, const double t = 0.0) override
    {
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < M; j++) b_(i, j) = symDUF(nm + S(i), N + j, cat(x, u));
        return b_;
    }
    StateMatrix<N> a_;
    StateControlMatrix<N, M> b_;
};
// discrete x+ = F(x,u,n), arbitrary
template <size_t N, size_t M>
struct UFDiscSys : public DiscreteControlledSystem<N, M>
{
    std::string nm;
    UFDiscSys(const std::string& n = "F") : nm(n) {}
    UFDiscSys(std::shared_ptr<DiscreteController<N, M>> c, const std::string& n = "F") : DiscreteControlledSystem<N, M>(c), nm(n) {}
    UFDiscSys* clone() const override { return new UFDiscSys(*this); }
    StateVector<N> F(const StateVector<N>& x, int n, const ControlVector<M>& u) const
    {
        StateVector<N> r;
        for (size_t i = 0; i < N; i++) r(i) = symUF(nm + S(i), catT(x, u, n));
        return r;
    }
    void propagateControlledDynamics(const StateVector<N>& x, const int n, const ControlVector<M>& u, StateVector<N>& y) override
    {
        y = F(x, n, u);
    }
};
template <size_t N, size_t M>
struct UFDiscController : public DiscreteController<N, M>
{
    std::string nm;
    double gain = 1;
    UFDiscController(const std::string& n = "k") : nm(n) {}
    UFDiscController* clone() const override { return new UFDiscController(*this); }
    ControlVector<M> k(const StateVector<N>& x, int n) const
    {
        ControlVector<M> u;
        for (size_t i = 0; i < M; i++) u(i) = gain * symUF(nm + S(i), catT(x, n));
        return u;
    }
    void computeControl(const StateVector<N>& x, const int n, ControlVector<M>& u) override { u = k(x, n); }
};
