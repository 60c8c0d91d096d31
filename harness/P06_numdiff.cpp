// BOUNDS: numerical linearisers, exact-arithmetic semantics: state dim 2 (3 for DerivativesNumDiff), control dim 1-2; exactness on all affine (one/two-sided) and quadratic (two-sided) dynamics with symbolic coefficients, truncation error bounded by 1e-6*max(1,|x|) otherwise; time/step index passed through; clones and second-order structure. Rounding error is outside.
// SYM: budget=240
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<2> U;
// f_i = c_i(t) + a_i x + b_i u + (quad) q_i x0^2 + r_i x0 x1 + s_i u0 u1 + w_i x0 u0
struct Coef
{
    Eigen::Matrix2d A, B, q;
    Eigen::Vector2d c;
    double cub = 0;
    int deg;
    X f(const X& x, double t, const U& u) const
    {
        X r = A * x + B * u + c * t;
        if (deg >= 2)
            for (int i = 0; i < 2; i++) r(i) += q(i, 0) * x(0) * x(0) + q(i, 1) * u(1) * u(1) + q(i, 0) * x(0) * x(1) + q(i, 1) * x(1) * u(0);
        if (deg >= 3) r(0) += cub * x(0) * x(0) * x(0);
        return r;
    }
    Eigen::Matrix2d dx(const X& x, double t, const U& u) const
    {
        Eigen::Matrix2d r = A;
        if (deg >= 2)
            for (int i = 0; i < 2; i++)
            {
                r(i, 0) += q(i, 0) * (2 * x(0) + x(1));
                r(i, 1) += q(i, 0) * x(0) + q(i, 1) * u(0);
            }
        if (deg >= 3) r(0, 0) += 3 * cub * x(0) * x(0);
        return r;
    }
    Eigen::Matrix2d du(const X& x, double t, const U& u) const
    {
        Eigen::Matrix2d r = B;
        if (deg >= 2)
            for (int i = 0; i < 2; i++)
            {
                r(i, 0) += q(i, 1) * x(1);
                r(i, 1) += q(i, 1) * 2 * u(1);
            }
        return r;
    }
};
Coef mk(int deg)
{
    Coef k;
    k.A = symMat<2, 2>("A");
    k.B = symMat<2, 2>("B");
    k.c = symMat<2>("c");
    k.q = symMat<2, 2>("q");
    k.cub = symIn("cub", -1, 1);
    k.deg = deg;
    return k;
}
struct CS : public ControlledSystem<2, 2>
{
    Coef k;
    CS(const Coef& c, SYSTEM_TYPE t = GENERAL) : ControlledSystem<2, 2>(t), k(c) {}
    CS* clone() const override { return new CS(*this); }
    void computeControlledDynamics(const X& x, const double& t, const U& u, X& d) override
    {
        d = k.f(x, t, u);
        if (this->type_ == SECOND_ORDER) d(0) = x(1);
    }
};
struct DS : public DiscreteControlledSystem<2, 2>
{
    Coef k;
    DS(const Coef& c) : k(c) {}
    DS* clone() const override { return new DS(*this); }
    void propagateControlledDynamics(const X& x, const int n, const U& u, X& d) override { d = k.f(x, n, u); }
};
void sym_main()
{
    X x = symMat<2>("x"), z = symMat<2>("z");
    U u = symMat<2>("u");
    int mode = symChoice("mode", 7);
    if (mode == 0 || mode == 1)
    {
        int two = symChoice("two-sided", 2);
        Coef k = mk(two ? 2 : 1);
        double t = symReal("t");
        auto s = std::make_shared<CS>(k);
        SystemLinearizer<2, 2> l(s, two);
        if (mode == 0)
        {
            assertEqM(l.getDerivativeState(x, u, t), k.dx(x, t, u), "ct-A");
            assertEqM(l.getDerivativeControl(x, u, t), k.du(x, t, u), "ct-B");
            StateMatrix<2> A;
            StateControlMatrix<2, 2> B;
            l.getDerivatives(A, B, x, u, t);
            assertEqM(A, k.dx(x, t, u), "ct-getDerivatives-A");
            assertEqM(B, k.du(x, t, u), "ct-getDerivatives-B");
        }
        else
        {
            std::shared_ptr<SystemLinearizer<2, 2>> c(l.clone());
            // the clone works on its own copy of the system
            s->k.A *= 2;
            s->k.B *= 2;
            assertEqM(c->getDerivativeState(x, u, t), k.dx(x, t, u), "ct-clone-A");
            assertEqM(c->getDerivativeControl(x, u, t), k.du(x, t, u), "ct-clone-B");
        }
    }
    else if (mode == 2)
    {
        int two = symChoice("two-sided", 2);
        Coef k = mk(two ? 2 : 1);
        int n = symChoice("n", 2);
        auto s = std::make_shared<DS>(k);
        DiscreteSystemLinearizer<2, 2> l0(s, two);
        std::shared_ptr<DiscreteSystemLinearizer<2, 2>> c(l0.clone());
        DiscreteSystemLinearizer<2, 2>& l = symChoice("clone", 2) ? *c : l0;
        assertEqM(l.getDerivativeState(x, u, n), k.dx(x, n, u), "dt-A");
        assertEqM(l.getDerivativeControl(x, u, n), k.du(x, n, u), "dt-B");
        StateMatrix<2> A;
        StateControlMatrix<2, 2> B;
        l.getAandB(x, u, z, n, 1, A, B);
        assertEqM(A, k.dx(x, n, u), "dt-getAandB-A");
        assertEqM(B, k.du(x, n, u), "dt-getAandB-B");
    }
    else if (mode == 3)
    {
        // second-order systems: first block row is (0 I | 0)
        Coef k = mk(2);
        double t = symReal("t");
        auto s = std::make_shared<CS>(k, SECOND_ORDER);
        SystemLinearizer<2, 2> l0(s, true);
        std::shared_ptr<SystemLinearizer<2, 2>> c(l0.clone());
        SystemLinearizer<2, 2>& l = symChoice("clone", 2) ? *c : l0;
        Eigen::Matrix2d A = k.dx(x, t, u), B = k.du(x, t, u);
        A.row(0) << 0, 1;
        B.row(0) << 0, 0;
        assertEqM(l.getDerivativeState(x, u, t), A, "second-order-A");
        assertEqM(l.getDerivativeControl(x, u, t), B, "second-order-B");
    }
    else if (mode == 4)
    {
        // truncation error: cubic (two-sided), quadratic (one-sided)
        int two = symChoice("two-sided", 2);
        Coef k = mk(two ? 3 : 2);
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++)
            {
                sym_assume_le(-1, k.q(i, j));
                sym_assume_le(k.q(i, j), 1);
            }
        auto s = std::make_shared<CS>(k);
        SystemLinearizer<2, 2> l(s, two);
        sym_assume_le(-3, x(0));
        sym_assume_le(x(0), 3);
        sym_assume_le(-3, u(1));
        sym_assume_le(u(1), 3);
        double e = l.getDerivativeState(x, u, 0.0)(0, 0) - k.dx(x, 0, u)(0, 0);
        assertLe(e, 1e-6, "truncation-x");
        assertLe(-1e-6, e, "truncation-x");
        e = l.getDerivativeControl(x, u, 0.0)(0, 1) - k.du(x, 0, u)(0, 1);
        assertLe(e, 1e-6, "truncation-u");
        assertLe(-1e-6, e, "truncation-u");
    }
    else if (mode == 5)
    {
        int two = symChoice("two-sided", 2);
        typedef DerivativesNumDiff<3, 2> D;
        Eigen::Matrix<double, 2, 3> J = symMat<2, 3>("J");
        Eigen::Vector2d c = symMat<2>("c"), q = symMat<2>("q");
        typename D::Function f = [&](const Eigen::Matrix<double, 3, 1>& y) -> Eigen::Vector2d {
            Eigen::Vector2d r = J * y + c;
            if (two) r += q * y(0) * y(0) + q * y(1) * y(2);
            return r;
        };
        D d0(f, two);
        std::shared_ptr<D> cl(d0.clone());
        D& d = symChoice("clone", 2) ? *cl : d0;
        Eigen::VectorXd y(3);
        y << x(0), x(1), u(0);
        Eigen::Matrix<double, 2, 3> ref = J;
        if (two)
        {
            ref.col(0) += q * 2 * y(0);
            ref.col(1) += q * y(2);
            ref.col(2) += q * y(1);
        }
        assertEqM(d.forwardZero(y), f(Eigen::Matrix<double, 3, 1>(y)), "forwardZero");
        assertEqM(d.jacobian(y), ref, "jacobian");
    }
    else
    {
        // linear system through its own interface: xdot = A x + B u
        Coef k = mk(1);
        double t = symReal("t");
        auto s = std::make_shared<CS>(k);
        SystemLinearizer<2, 2> l(s);
        X d;
        l.computeControlledDynamics(x, t, u, d);
        assertEqM(d, X(k.A * x + k.B * u), "linear-dynamics");
        auto ds = std::make_shared<DS>(k);
        DiscreteSystemLinearizer<2, 2> dl(ds);
        dl.propagateControlledDynamics(x, 1, u, d);
        assertEqM(d, X(k.A * x + k.B * u), "discrete-linear-dynamics");
    }
}
