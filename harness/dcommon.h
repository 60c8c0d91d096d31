// A DMS problem over arbitrary (uninterpreted) dynamics, cost and constraints, evaluated at the NLP interface.
#pragma once
#include "ocommon.h"
template <size_t N, size_t M>
struct Dms
{
    typedef StateVector<N> X;
    typedef ControlVector<M> U;
    typedef ContinuousOptConProblem<N, M> P;
    typedef Eigen::VectorXd V;
    typedef Eigen::MatrixXd MX;
    DmsSettings s;
    size_t K;   // shots
    int sub;    // integration steps per shot
    double h;   // integration step
    std::shared_ptr<DmsProblem<N, M>> p;
    UFCtrlSys<N, M> f;
    UFCost<N, M> c;
    std::vector<std::string> names;
    V w;
    Dms(size_t K_, int sub_, double h_, bool linear, bool full, bool rk4, const X& x0, std::vector<typename P::ConstraintPtr_t> in = {},
        std::vector<typename P::ConstraintPtr_t> st = {}, std::vector<typename P::ConstraintPtr_t> ge = {})
        : K(K_), sub(sub_), h(h_)
    {
        s.N_ = K;
        s.T_ = h * (double)(K * sub);
        s.dt_sim_ = h;
        s.nThreads_ = 1;
        s.splineType_ = linear ? DmsSettings::PIECEWISE_LINEAR : DmsSettings::ZERO_ORDER_HOLD;
        s.costEvaluationType_ = full ? DmsSettings::FULL : DmsSettings::SIMPLE;
        s.integrationType_ = rk4 ? DmsSettings::RK4 : DmsSettings::EULER;
        std::vector<typename P::DynamicsPtr_t> sy;
        std::vector<typename P::LinearPtr_t> li;
        std::vector<typename P::CostFunctionPtr_t> co;
        for (size_t i = 0; i < K; i++)
        {
            sy.push_back(typename P::DynamicsPtr_t(new UFCtrlSys<N, M>()));
            li.push_back(typename P::LinearPtr_t(new UFLin<N, M>()));
            co.push_back(typename P::CostFunctionPtr_t(new UFCost<N, M>()));
        }
        p.reset(new DmsProblem<N, M>(s, sy, li, co, in, st, ge, x0));
    }
    size_t nw() const { return (K + 1) * (N + M); }
    V fresh(const std::string& pre)
    {
        V v(nw());
        names.clear();
        for (size_t i = 0; i < nw(); i++)
        {
            names.push_back(pre + ::S(i));
            v(i) = symReal(names.back());
        }
        return v;
    }
    void set(const V& v)
    {
        w = v;
        p->extractOptimizationVars(Eigen::Map<const V>(w.data(), w.size()), true);
    }
    X x(size_t i) const { return w.template segment<N>(i * (N + M)); }
    U u(size_t i) const { return w.template segment<M>(i * (N + M) + N); }
    double t(size_t i) const { return (double)i * (double)sub * h; }
    V constraints()
    {
        V g(p->getConstraintsCount());
        Eigen::Map<V> m(g.data(), g.size());
        p->evaluateConstraints(m);
        return g;
    }
    // sparse Jacobian with its pattern, assembled
    MX jacobian(const std::string& l)
    {
        int nnz = p->getNonZeroJacobianCount();
        int m = p->getConstraintsCount();
        MX J = MX::Zero(m, nw());
        V val(nnz);
        Eigen::VectorXi r(nnz), c2(nnz);
        Eigen::Map<V> mv(val.data(), nnz);
        Eigen::Map<Eigen::VectorXi> mr(r.data(), nnz), mc(c2.data(), nnz);
        p->evaluateConstraintJacobian(nnz, mv);
        p->getSparsityPatternJacobian(nnz, mr, mc);
        for (int i = 0; i < nnz; i++)
        {
            bool ok = r(i) >= 0 && r(i) < m && c2(i) >= 0 && c2(i) < (int)nw();
            assertTrue(ok, l + "-range");
            if (ok) J(r(i), c2(i)) = J(r(i), c2(i)) + val(i);
        }
        return J;
    }
    V gradient()
    {
        V g(nw());
        Eigen::Map<V> m(g.data(), g.size());
        p->evaluateCostGradient(nw(), m);
        return g;
    }
    // reference parameterisation, integration and quadrature
    U uref(size_t i, double tt) const
    {
        if (s.splineType_ == DmsSettings::ZERO_ORDER_HOLD) return u(i);
        double a = (tt - t(i)) / ((double)sub * h);
        return U((1.0 - a) * u(i) + a * u(i + 1));
    }
    X shot(size_t i, double* cost = nullptr) const
    {
        X y = x(i);
        double l = 0;
        for (int k = 0; k < sub; k++)
        {
            double tt = t(i) + (double)k * h;
            U u0 = uref(i, tt);
            X k1 = f.f(y, u0, tt);
            if (s.integrationType_ == DmsSettings::EULER)
            {
                l = l + h * c.L(y, u0, tt);
                y = X(y + h * k1);
                continue;
            }
            U um = uref(i, tt + 0.5 * h), u1 = uref(i, tt + h);
            X y2 = X(y + 0.5 * h * k1);
            X k2 = f.f(y2, um, tt + 0.5 * h);
            X y3 = X(y + 0.5 * h * k2);
            X k3 = f.f(y3, um, tt + 0.5 * h);
            X y4 = X(y + h * k3);
            X k4 = f.f(y4, u1, tt + h);
            l = l + h / 6.0 * (c.L(y, u0, tt) + 2.0 * c.L(y2, um, tt + 0.5 * h) + 2.0 * c.L(y3, um, tt + 0.5 * h) + c.L(y4, u1, tt + h));
            y = X(y + h / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4));
        }
        if (cost) *cost = l;
        return y;
    }
    void checkJac(const V& g, const MX& J, const std::string& l)
    {
        for (int r = 0; r < J.rows(); r++)
            for (int k = 0; k < J.cols(); k++) assertDeriv(g(r), names[k], J(r, k), l + "-jac-" + ::S(r) + "-" + ::S(k));
    }
};
