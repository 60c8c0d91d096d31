// BOUNDS: sensitivity approximation: state dim 2 (1+1 symplectic), control dim 1, step index 0..2; symbolic continuous linearisation A(x,u,t), B(x,u,t) (arbitrary functions); implicit schemes where I - h A is diagonally dominant; matrix exponential on nilpotent (double-integrator-like) and zero system matrices
// SYM: budget=200
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<1> U;
typedef StateMatrix<2> MA;
typedef StateControlMatrix<2, 1> MB;
typedef SensitivityApproximationSettings::APPROXIMATION AP;
// matrices that depend on time index only through symbolic values; per evaluation point uninterpreted
struct Lin : public LinearSystem<2, 1>
{
    int diag = 0;  // 1: upper triangular, 2: nilpotent
    Lin* clone() const override { return new Lin(*this); }
    MA A(const X& x, const U& u, double t) const
    {
        MA a;
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++) a(i, j) = symUF("a" + ::S(i) + ::S(j), catT(x, u, t));
        return a;
    }
    MB B(const X& x, const U& u, double t) const
    {
        MB b;
        for (int i = 0; i < 2; i++) b(i, 0) = symUF("b" + ::S(i), catT(x, u, t));
        return b;
    }
    const MA& getDerivativeState(const X& x, const U& u, const double t = 0.0) override { return a_ = A(x, u, t); }
    const MB& getDerivativeControl(const X& x, const U& u, const double t = 0.0) override { return b_ = B(x, u, t); }
    MA a_;
    MB b_;
};
struct Const : public LinearSystem<2, 1>
{
    MA a_;
    MB b_;
    Const* clone() const override { return new Const(*this); }
    const MA& getDerivativeState(const X&, const U&, const double t = 0.0) override { return a_; }
    const MB& getDerivativeControl(const X&, const U&, const double t = 0.0) override { return b_; }
};
void sym_main()
{
    X x = symMat<2>("x"), xn = symMat<2>("z");
    U u = symMat<1>("u");
    double dt = symIn("dt", 0.01, 1);
    int n = symChoice("n", 3);
    int type = symChoice("type", 5);
    auto lin = std::make_shared<Lin>();
    MA A, I = MA::Identity();
    MB B;
    if (type == 0)
    {
        SensitivityApproximation<2, 1> s(dt, lin);
        s.getAandB(x, u, xn, n, 1, A, B);
        assertEqM(A, MA(I + dt * lin->A(x, u, n * dt)), "forward-A");
        assertEqM(B, MB(dt * lin->B(x, u, n * dt)), "forward-B");
        // through the settings interface, and on a clone
        SensitivityApproximationSettings st(2 * dt, AP::FORWARD_EULER);
        SensitivityApproximation<2, 1> s2(st, lin);
        std::shared_ptr<SensitivityApproximation<2, 1>> c(s2.clone());
        s2.setTimeDiscretization(dt);
        s2.getAandB(x, u, xn, n, 1, A, B);
        assertEqM(A, MA(I + dt * lin->A(x, u, n * dt)), "forward-A-settings");
        c->getAandB(x, u, xn, n, 1, A, B);
        assertEqM(A, MA(I + 2 * dt * lin->A(x, u, n * 2 * dt)), "forward-A-clone");
        assertEqM(B, MB(2 * dt * lin->B(x, u, n * 2 * dt)), "forward-B-clone");
        // the generic discrete linear system interface propagates A x + B u
        X y;
        s.propagateControlledDynamics(x, n, u, y);
        MA A0 = I + dt * lin->A(x, u, n * dt);
        MB B0 = dt * lin->B(x, u, n * dt);
        assertEqM(y, X(A0 * x + B0 * u), "linear-propagation");
        SensitivityApproximation<2, 1> none(dt);
        assertTrue(throws([&] { none.getAandB(x, u, xn, n, 1, A, B); }), "no-linear-system-throws");
    }
    else if (type == 1)
    {
        // symplectic Euler step of the linearised dynamics: p+ = p + h (A11 p + A12 v + B1 u) and v+ uses p+
        SensitivityApproximation<2, 1, 1, 1> s(dt, lin, AP::SYMPLECTIC_EULER);
        s.getAandB(x, u, xn, n, 1, A, B);
        X xi = x;
        xi(0) = xn(0);
        MA a1 = lin->A(x, u, n * dt), a2 = lin->A(xi, u, n * dt);
        MB b1 = lin->B(x, u, n * dt), b2 = lin->B(xi, u, n * dt);
        for (int c = 0; c < 3; c++)
        {
            double p = c == 0, v = c == 1, w = c == 2;
            double pn = p + dt * (a1(0, 0) * p + a1(0, 1) * v + b1(0) * w);
            double vn = v + dt * (a2(1, 0) * pn + a2(1, 1) * v + b2(1) * w);
            assertEq(c < 2 ? A(0, c) : B(0, 0), pn, "symplectic-p");
            assertEq(c < 2 ? A(1, c) : B(1, 0), vn, "symplectic-v");
        }
    }
    else if (type == 2 || type == 3)
    {
        // implicit schemes, checked in implicit form (no inverse in the oracle): (I - c h A_back) A_d = I + (1-c) h A_front
        bool tustin = type == 3;
        typedef StateMatrix<1> M1;
        struct L1 : public LinearSystem<1, 1>
        {
            M1 a_;
            StateControlMatrix<1, 1> b_;
            L1* clone() const override { return new L1(*this); }
            double A(double x, double u, double t) const { return symUF("a", {x, u, t}); }
            double B(double x, double u, double t) const { return symUF("b", {x, u, t}); }
            const M1& getDerivativeState(const StateVector<1>& x, const ControlVector<1>& u, const double t = 0.0) override
            {
                a_(0) = A(x(0), u(0), t);
                return a_;
            }
            const StateControlMatrix<1, 1>& getDerivativeControl(const StateVector<1>& x, const ControlVector<1>& u, const double t = 0.0) override
            {
                b_(0) = B(x(0), u(0), t);
                return b_;
            }
        };
        auto l = std::make_shared<L1>();
        StateVector<1> y, yn;
        y << x(0);
        yn << xn(0);
        SensitivityApproximation<1, 1> s(dt, l, AP::FORWARD_EULER);
        s.setApproximation(tustin ? AP::TUSTIN : AP::BACKWARD_EULER);
        double f = l->A(y(0), u(0), n * dt);
        double bk = tustin ? l->A(yn(0), u(0), (n + 1) * dt) : l->A(y(0), u(0), (n + 1) * dt);
        double c = tustin ? 0.5 : 1.0;
        sym_assume_le(c * dt * bk, 0.9);
        sym_assume_le(-10, c * dt * bk);
        M1 a;
        StateControlMatrix<1, 1> b;
        s.getAandB(y, u, yn, n, 1, a, b);
        double left = 1 - c * dt * bk;
        assertEq(left * a(0), tustin ? 1 + 0.5 * dt * f : 1.0, tustin ? "tustin-A" : "backward-A");
        assertEq(left * b(0), dt * l->B(y(0), u(0), (tustin ? n : n + 1) * dt), tustin ? "tustin-B" : "backward-B");
    }
    else
    {
        auto cst = std::make_shared<Const>();
        int kind = symChoice("kind", 3);
        cst->a_.setZero();
        if (kind == 1) cst->a_(0, 1) = symIn("a01", -0.5, 0.5);
        if (kind == 2) cst->a_(1, 0) = symIn("a10", -0.5, 0.5);
        cst->b_ << symIn("b0", -0.5, 0.5), symIn("b1", -0.5, 0.5);
        SensitivityApproximation<2, 1> s(dt, cst, AP::MATRIX_EXPONENTIAL);
        s.getAandB(x, u, xn, n, 1, A, B);
        assertEqM(A, MA(I + dt * cst->a_), "expm-A");
        assertEqM(B, MB(dt * cst->b_ + dt * dt / 2 * cst->a_ * cst->b_), "expm-B");
    }
}
