// BOUNDS: LTI systems: state dim 2, control dim 1-2, all matrices, states and controls symbolic; Gramian sums up to 3 terms; rank tests for dim 2 with |det| >= 0.1 or exactly rank deficient; second-order system with symbolic parameters
// SYM: budget=200
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<1> U;
typedef Eigen::Matrix2d M;
template <typename SYS>
void structural(SYS& s, const M& A, const Eigen::Vector2d& B, const M& C, const std::string& l)
{
    Eigen::Matrix<double, 2, 2> CO;
    s.computeControllabilityMatrix(CO);
    M co;
    co.col(0) = B;
    co.col(1) = A * B;
    assertEqM(CO, co, l + "-controllability-matrix");
    Eigen::Matrix<double, 4, 2> O, o;
    s.computeObservabilityMatrix(O);
    o.topRows<2>() = C;
    o.bottomRows<2>() = C * A;
    assertEqM(O, o, l + "-observability-matrix");
}
void sym_main()
{
    int mode = symChoice("mode", 8);
    X x = symMat<2>("x");
    U u = symMat<1>("u");
    double t = symReal("t");
    if (mode == 0 || mode == 1)
    {
        M A = symMat<2, 2>("A"), C = symMat<2, 2>("C");
        Eigen::Vector2d B = symMat<2>("B"), D = symMat<2>("D");
        if (mode == 0)
        {
            LTISystem<2, 1> s0(A, B, C, D), s1(s0);
            std::shared_ptr<LTISystem<2, 1>> s2(s0.clone());
            int w = symChoice("which", 3);
            LTISystem<2, 1>& s = w == 0 ? s0 : (w == 1 ? s1 : *s2);
            if (w) s0.A()(0, 0) += 1;
            X d, y;
            s.computeControlledDynamics(x, t, u, d);
            assertEqM(d, X(A * x + B * u), "ct-dynamics");
            s.computeOutput(x, t, u, y);
            assertEqM(y, X(C * x + D * u), "ct-output");
            assertEqM(s.getDerivativeState(x, u, t), A, "ct-A");
            assertEqM(s.getDerivativeControl(x, u, t), B, "ct-B");
            assertTrue(s.getDerivativeState(x, u, t).rows() == 2, "dim");
            structural(s, A, B, C, "ct");
            auto k = std::make_shared<UFController<2, 1>>("k");
            s.setController(k);
            LTISystem<2, 1> c(s);
            c.computeDynamics(x, t, d);
            assertEqM(d, X(A * x + B * k->k(x, t)), "ct-copy-keeps-controller");
        }
        else
        {
            DiscreteLTISystem<2, 1> s0(A, B, C, D), s1(s0);
            std::shared_ptr<DiscreteLTISystem<2, 1>> s2(s0.clone());
            int w = symChoice("which", 3);
            DiscreteLTISystem<2, 1>& s = w == 0 ? s0 : (w == 1 ? s1 : *s2);
            if (w) s0.B()(0, 0) += 1;
            X d;
            s.propagateControlledDynamics(x, 3, u, d);
            assertEqM(d, X(A * x + B * u), "dt-dynamics");
            Eigen::Vector2d y;
            s.computeOutput(x, 3, u, y);
            assertEqM(y, Eigen::Vector2d(C * x + D * u), "dt-output");
            StateMatrix<2> a;
            StateControlMatrix<2, 1> b;
            s.getAandB(x, u, x, 2, 1, a, b);
            assertEqM(a, A, "dt-A");
            assertEqM(b, B, "dt-B");
            structural(s, A, B, C, "dt");
            auto k = std::make_shared<UFDiscController<2, 1>>("k");
            s.setController(k);
            DiscreteLTISystem<2, 1> c(s);
            c.propagateDynamics(x, 2, d);
            assertEqM(d, X(A * x + B * k->k(x, 2)), "dt-copy-keeps-controller");
        }
    }
    else if (mode == 2)
    {
        // positive entries: the result is a polynomial in them, so equality there is equality everywhere
        M A, C;
        Eigen::Vector2d B;
        for (int i = 0; i < 2; i++)
        {
            B(i) = symPos("B" + S(i), 0.1, 1);
            for (int j = 0; j < 2; j++)
            {
                A(i, j) = symPos("A" + S(i) + S(j), 0.1, 1);
                C(i, j) = symPos("C" + S(i) + S(j), 0.1, 1);
            }
        }
        DiscreteLTISystem<2, 1> s(A, B, C);
        int n = 1 + symChoice("terms", 3);
        M g = M::Zero(), o = M::Zero(), P = M::Identity();
        for (int i = 0; i < n; i++)
        {
            g += P * B * B.transpose() * P.transpose();
            o += P.transpose() * C.transpose() * C * P;
            P = P * A;
        }
        assertEqM(s.computeControllabilityGramian(n, -1.0), g, "controllability-gramian");
        assertEqM(s.computeObservabilityGramian(n, -1.0), o, "observability-gramian");
    }
    else if (mode == 3 || mode == 4)
    {
        // rank decisions: B = e1-like, A symbolic
        double b = symIn("b", 0.5, 2), a = symIn("a", -2, 2), c = symIn("c", -1, 1), e = symIn("e", -1, 1);
        bool zero = symChoice("zero", 2);
        if (zero)
            a = 0.0;
        else
        {
            int neg = symChoice("neg", 2);
            if (neg) sym_assume_le(a, -0.5);
            else sym_assume_le(0.5, a);
        }
        M A;
        Eigen::Vector2d B;
        if (mode == 3)
        {
            // controllable iff the first state drives the second
            A << c, e, a, c;
            B << b, 0;
            LTISystem<2, 1> s(A, B);
            DiscreteLTISystem<2, 1> d(A, B);
            assertTrue(s.isControllable() == !zero, "ct-controllable");
            assertTrue(d.isControllable() == !zero, "dt-controllable");
        }
        else
        {
            // measuring the first state only: observable iff the second drives the first
            A << c, a, e, c;
            M C = M::Zero();
            C(0, 0) = b;
            LTISystem<2, 1> s(A, Eigen::Vector2d(Eigen::Vector2d::Zero()), C);
            DiscreteLTISystem<2, 1> d(A, Eigen::Vector2d(Eigen::Vector2d::Zero()), C);
            assertTrue(s.isObservable() == !zero, "ct-observable");
            assertTrue(d.isObservable() == !zero, "dt-observable");
        }
    }
    else if (mode == 5)
    {
        double w = symReal("w"), z = symReal("z"), g = symReal("g");
        SecondOrderSystem s0(w, z, g);
        std::shared_ptr<SecondOrderSystem> s1(s0.clone());
        SecondOrderSystem& s = symChoice("clone", 2) ? *s1 : s0;
        X d;
        s.computeControlledDynamics(x, t, u, d);
        assertEq(d(0), x(1), "oscillator-position");
        assertEq(d(1), g * w * w * u(0) - 2 * z * w * x(1) - w * w * x(0), "oscillator-velocity");
        bool ok = !(z < 0) && !(w < 0) && g > 0;
        assertTrue(s.checkParameters() == ok, "oscillator-parameter-check");
        double w2 = symReal("w2"), z2 = symReal("z2"), g2 = symReal("g2");
        s.setDynamics(w2, z2, g2);
        s.computeControlledDynamics(x, t, u, d);
        assertEq(d(1), g2 * w2 * w2 * u(0) - 2 * z2 * w2 * x(1) - w2 * w2 * x(0), "oscillator-set-dynamics");
        assertTrue(s.getType() == SECOND_ORDER, "oscillator-type");
    }
    else if (mode == 6)
    {
        // mass-spring-damper: m a = -k p - d v + k g u
        double k = symPos("k", 0.5, 2), m = symPos("m", 0.5, 2), c = symReal("c"), g = symReal("g");
        SecondOrderSystem s(k, m, c, g);
        X d;
        s.computeControlledDynamics(x, t, u, d);
        assertEq(d(0), x(1), "spring-position");
        assertEq(m * d(1), k * g * u(0) - c * x(1) - k * x(0), "spring-velocity");
    }
    else
    {
        M A = symMat<2, 2>("A"), B = symMat<2, 2>("B");
        LTISystem<2, 2> s(A, B);
        Eigen::Matrix<double, 2, 4> CO, co;
        s.computeControllabilityMatrix(CO);
        co.leftCols<2>() = B;
        co.rightCols<2>() = A * B;
        assertEqM(CO, co, "two-input-controllability-matrix");
        Eigen::Matrix<double, 2, 1> y, uu = symMat<2>("uu");
        X yx;
        s.computeOutput(x, t, uu, yx);
        assertEqM(yx, x, "default-output-is-state");
    }
}
