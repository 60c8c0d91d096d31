// BOUNDS: cost functions with 3 intermediate and 2 final terms (arbitrary functions and library terms), state 2, control 2, all values symbolic; every activation kind with symbolic parameters (periodic: up to 3 periods); one config file
// SYM: budget=200
#include "common.h"
#include <ct/optcon/optcon.h>
#include <fstream>
#include <unistd.h>
using namespace ct::optcon;
typedef StateVector<2> X;
typedef ControlVector<2> U;
typedef Eigen::Matrix2d M2;
// a term given by an arbitrary function g(x,u,t)
struct UFTerm : public TermBase<2, 2, double>
{
    std::string g;
    X off;
    UFTerm(const std::string& n) : g(n) { off.setZero(); }
    UFTerm* clone() const override { return new UFTerm(*this); }
    std::vector<double> arg(const X& x, const U& u, double t) { return catT(X(x - off), u, t); }
    double evaluate(const Eigen::Matrix<double, 2, 1>& x, const Eigen::Matrix<double, 2, 1>& u, const double& t) override { return symUF(g, arg(X(x), U(u), t)); }
    X stateDerivative(const X& x, const U& u, const double& t) override { X r; for (int i = 0; i < 2; i++) r(i) = symUF(g + "x" + ::S(i), arg(x, u, t)); return r; }
    U controlDerivative(const X& x, const U& u, const double& t) override { U r; for (int i = 0; i < 2; i++) r(i) = symUF(g + "u" + ::S(i), arg(x, u, t)); return r; }
    M2 mat(const std::string& n, const X& x, const U& u, double t) { M2 r; for (int i = 0; i < 4; i++) r(i / 2, i % 2) = symUF(n + ::S(i), arg(x, u, t)); return r; }
    state_matrix_t stateSecondDerivative(const X& x, const U& u, const double& t) override { return mat(g + "xx", x, u, t); }
    control_matrix_t controlSecondDerivative(const X& x, const U& u, const double& t) override { return mat(g + "uu", x, u, t); }
    control_state_matrix_t stateControlDerivative(const X& x, const U& u, const double& t) override { return mat(g + "ux", x, u, t); }
    void updateReferenceState(const Eigen::Matrix<double, 2, 1>& n) override { off = n; }
};
typedef CostFunctionAnalytical<2, 2> CA;
void aggregate()
{
    X x = symMat<2>("x"), x2 = symMat<2>("y");
    U u = symMat<2>("u"), u2 = symMat<2>("v");
    double t = symReal("t"), t2 = symReal("t2");
    CA cost;
    std::vector<std::shared_ptr<UFTerm>> it, ft;
    for (int i = 0; i < 3; i++)
    {
        it.push_back(std::shared_ptr<UFTerm>(new UFTerm("g" + S(i))));
        it[i]->setName("n" + S(i));
        assertTrue(cost.addIntermediateTerm(it[i]) == (size_t)i, "intermediate-id");
    }
    for (int i = 0; i < 2; i++)
    {
        ft.push_back(std::shared_ptr<UFTerm>(new UFTerm("h" + S(i))));
        ft[i]->setName("m" + S(i));
        assertTrue(cost.addFinalTerm(ft[i]) == (size_t)i, "final-id");
    }
    assertTrue(cost.getIntermediateTermById(1) == it[1] && cost.getFinalTermById(1) == ft[1], "by-id");
    assertTrue(cost.getIntermediateTermByName("n2") == it[2] && cost.getFinalTermByName("m1") == ft[1], "by-name");
    assertTrue(throws([&] { cost.getIntermediateTermByName("m1"); }) && throws([&] { cost.getFinalTermByName("n1"); }), "by-name-missing");
    // activations: term 1 switched, term 2 ramped
    double on = symReal("on"), off = symReal("off"), sl = symReal("slope"), sv = symReal("sv");
    it[1]->setTimeActivation(std::shared_ptr<ActivationBase>(new SingleActivation(on, off)));
    it[2]->setTimeActivation(std::shared_ptr<ActivationBase>(new LinearActivation(on, off, sl, sv)));
    // final terms ignore time activations
    ft[0]->setTimeActivation(std::shared_ptr<ActivationBase>(new LinearActivation(on, off, sl, sv)));
    std::shared_ptr<CA> c;
    int w = symChoice("path", 3);
    if (w == 0) c.reset(&cost, [](CA*) {});
    if (w == 1) cost.setCurrentStateAndControl(x2, u2, t2);
    if (w >= 1) c.reset(cost.clone());
    double sh = 0;
    if (symChoice("shift", 2))
    {
        sh = symReal("shift_");
        c->shiftTime(sh);
    }
    c->setCurrentStateAndControl(x, u, t);
    X xo = X::Zero(), fo = X::Zero();
    if (w)
    {
        xo = symMat<2>("xo");
        fo = symMat<2>("fo");
        c->updateReferenceState(xo);
        c->updateFinalState(fo);
    }
    double te = t + sh;
    X gx;
    U gu;
    double tt;
    c->getCurrentStateAndControl(gx, gu, tt);
    assertEqM(gx, x, "current-state");
    assertEqM(gu, u, "current-control");
    assertEq(tt, te, "current-time");
    bool act = on <= te && te < off;
    double W[3] = {1.0, act ? 1.0 : 0.0, act ? sv + sl * (te - on) : 0.0};
    double v = 0;
    X dx = X::Zero();
    U du = U::Zero();
    M2 xx = M2::Zero(), uu = M2::Zero(), ux = M2::Zero();
    for (int i = 0; i < 3; i++)
    {
        UFTerm r("g" + S(i));
        r.off = xo;
        v += W[i] * r.evaluate(x, u, te);
        dx += W[i] * r.stateDerivative(x, u, te);
        du += W[i] * r.controlDerivative(x, u, te);
        xx += W[i] * r.stateSecondDerivative(x, u, te);
        uu += W[i] * r.controlSecondDerivative(x, u, te);
        ux += W[i] * r.stateControlDerivative(x, u, te);
    }
    assertEq(c->evaluateIntermediate(), v, "intermediate");
    assertEqM(c->stateDerivativeIntermediate(), dx, "intermediate-dx");
    assertEqM(c->controlDerivativeIntermediate(), du, "intermediate-du");
    assertEqM(c->stateSecondDerivativeIntermediate(), xx, "intermediate-dxx");
    assertEqM(c->controlSecondDerivativeIntermediate(), uu, "intermediate-duu");
    assertEqM(c->stateControlDerivativeIntermediate(), ux, "intermediate-dux");
    v = 0;
    dx.setZero();
    du.setZero();
    xx.setZero();
    uu.setZero();
    ux.setZero();
    for (int i = 0; i < 2; i++)
    {
        UFTerm r("h" + S(i));
        r.off = fo;
        v += r.evaluate(x, u, te);
        dx += r.stateDerivative(x, u, te);
        du += r.controlDerivative(x, u, te);
        xx += r.stateSecondDerivative(x, u, te);
        uu += r.controlSecondDerivative(x, u, te);
        ux += r.stateControlDerivative(x, u, te);
    }
    assertEq(c->evaluateTerminal(), v, "terminal");
    assertEqM(c->stateDerivativeTerminal(), dx, "terminal-dx");
    assertEqM(c->controlDerivativeTerminal(), du, "terminal-du");
    assertEqM(c->stateSecondDerivativeTerminal(), xx, "terminal-dxx");
    assertEqM(c->controlSecondDerivativeTerminal(), uu, "terminal-duu");
    assertEqM(c->stateControlDerivativeTerminal(), ux, "terminal-dux");
    if (w == 1)
    {
        // the original was neither moved nor re-targeted
        cost.getCurrentStateAndControl(gx, gu, tt);
        assertEqM(gx, x2, "original-state");
        assertEqM(it[0]->off, X(X::Zero()), "original-reference");
        assertEqM(ft[0]->off, X(X::Zero()), "original-final");
    }
}
// reference updates reach the library terms
void references()
{
    X x = symMat<2>("x"), r = symMat<2>("r"), xr0 = symMat<2>("s"), xf = symMat<2>("f");
    U u = symMat<2>("u"), q = symMat<2>("q"), ur0 = symMat<2>("p");
    double t = symReal("t");
    M2 Q = symMat<2, 2>("Q"), R = symMat<2, 2>("R");
    X a = symMat<2>("a");
    U b = symMat<2>("b");
    double al = symPos("al");
    int kind = symChoice("term", 4), upd = symChoice("update", 4);
    std::shared_ptr<TermBase<2, 2, double>> T;
    if (kind == 0) T.reset(new TermQuadratic<2, 2>(Q, R, xr0, ur0));
    if (kind == 1) T.reset(new TermMixed<2, 2>(Q, xr0, ur0));
    if (kind == 2) T.reset(new TermQuadMult<2, 2>(Q, R, xr0, ur0));
    if (kind == 3) T.reset(new TermSmoothAbs<2, 2>(a, xr0, b, ur0, al));
    CA c0;
    c0.addIntermediateTerm(T);
    std::shared_ptr<TermBase<2, 2, double>> F(T->clone());
    c0.addFinalTerm(F);
    std::shared_ptr<CA> c(c0.clone());
    if (upd & 1) c->updateReferenceState(r);
    if (upd & 2) c->updateReferenceControl(q);
    c->updateFinalState(xf);
    auto val = [&](const X& xr, const U& ur) -> double {
        X dx = x - xr;
        U du = u - ur;
        double A = dx.dot(Q * dx), B = du.dot(R * du), s = 0;
        for (int i = 0; i < 2; i++) s += a(i) * sqrt(dx(i) * dx(i) + al * al) + b(i) * sqrt(du(i) * du(i) + al * al);
        return kind == 0 ? A + B : (kind == 1 ? du.dot(Q * dx) : (kind == 2 ? A * B : s));
    };
    c->setCurrentStateAndControl(x, u, t);
    c0.setCurrentStateAndControl(x, u, t);
    assertEq(c->evaluateIntermediate(), val((upd & 1) ? r : xr0, (upd & 2) ? q : ur0), "reference-update" + S(kind));
    assertEq(c->evaluateTerminal(), val(xf, ur0), "final-update" + S(kind));
    assertEq(c0.evaluateIntermediate(), val(xr0, ur0), "reference-update-original" + S(kind));
}
void simple()
{
    X x = symMat<2>("x"), xn = symMat<2>("xn"), xf = symMat<2>("xf"), n1 = symMat<2>("n"), f1 = symMat<2>("f");
    U u = symMat<2>("u"), un = symMat<2>("un"), m1 = symMat<2>("m");
    double t = symReal("t");
    M2 Q = symSym<2>("Q"), R = symSym<2>("R"), F = symSym<2>("F");
    CostFunctionQuadraticSimple<2, 2> c0(Q, R, xn, un, xf, F);
    int o = symChoice("order", 4);
    if (o & 1) c0.setCurrentStateAndControl(x, u, t);
    std::shared_ptr<CostFunctionQuadraticSimple<2, 2>> c(c0.clone());
    if (o & 2)
    {
        c->updateReferenceState(n1);
        c->updateReferenceControl(m1);
        c->updateFinalState(f1);
    }
    if (!(o & 1)) c->setCurrentStateAndControl(x, u, t);
    X dx = x - ((o & 2) ? n1 : xn), df = x - ((o & 2) ? f1 : xf);
    U du = u - ((o & 2) ? m1 : un);
    assertEq(c->evaluateIntermediate(), 0.5 * dx.dot(Q * dx) + 0.5 * du.dot(R * du), "simple-intermediate");
    assertEq(c->evaluateTerminal(), 0.5 * df.dot(F * df), "simple-terminal");
    assertEqM(c->stateDerivativeIntermediate(), X(Q * dx), "simple-dx");
    assertEqM(c->controlDerivativeIntermediate(), U(R * du), "simple-du");
    assertEqM(c->stateSecondDerivativeIntermediate(), Q, "simple-dxx");
    assertEqM(c->controlSecondDerivativeIntermediate(), R, "simple-duu");
    assertEqM(c->stateControlDerivativeIntermediate(), M2(M2::Zero()), "simple-dux");
    assertEqM(c->stateDerivativeTerminal(), X(F * df), "simple-terminal-dx");
    assertEqM(c->stateSecondDerivativeTerminal(), F, "simple-terminal-dxx");
}
void activations()
{
    double t = symReal("t", -2, 4);
    int k = symChoice("activation", 5);
    if (k == 0)
    {
        double on = symReal("on"), off = symReal("off");
        SingleActivation a0(on, off), a(a0);
        assertTrue(a.isActive(t) == (on <= t && t < off), "single-active");
        assertEq(a.computeActivation(t), 1, "single-value");
    }
    if (k == 1)
    {
        double on = symReal("on"), off = symReal("off"), sl = symReal("sl"), sv = symReal("sv");
        LinearActivation a0(on, off, sl, sv), a(a0);
        assertTrue(a.isActive(t) == (on <= t && t < off), "linear-active");
        assertEq(a.computeActivation(t), sv + sl * (t - on), "linear-value");
    }
    if (k == 2)
    {
        double mu = symReal("mu"), si = symPos("si", 0.3, 2);
        RBFGaussActivation a0(mu, si), a(a0);
        assertTrue(a.isActive(t), "rbf-active");
        double v = a.computeActivation(t), e = exp(-(t - mu) * (t - mu) / (2.0 * si * si));
        assertEq(v * v * (2.0 * M_PI * si * si), e * e, "rbf-value", 1e-5);
        assertLe(0, v, "rbf-sign");
    }
    if (k == 3)
    {
        double ub = symReal("ub"), lb = symReal("lb"), al = symPos("al");
        BarrierActivation a(ub, lb, al);
        int m = symChoice("bounds", 3);
        if (m == 1) a.setUpperBoundOnly(ub, al);
        if (m == 2) a.setLowerBoundOnly(lb, al);
        double v = (m != 2 ? exp(al * (t - ub)) : 0.0) + (m != 1 ? exp(al * (lb - t)) : 0.0);
        assertEq(a.computeActivation(t), v, "barrier-value");
        assertDeriv(v, "t", a.firstOrderDerivative(t), "barrier-d");
        assertDeriv(a.firstOrderDerivative(t), "t", a.secondOrderDerivative(t), "barrier-dd");
    }
    if (k == 4)
    {
        double fr = symIn("fraction", 0, 1), T = symPos("period", 0.5, 2), ao = symIn("offset", 0, 1), po = symReal("start");
        sym_assume_le(ao + fr * T, T);
        sym_assume_lt(t - po, 3 * T);
        sym_assume_lt(t, 1e9);
        PeriodicActivation a0(fr, T, ao, po), a(a0);
        bool act = false;
        for (int i = 0; i < 3; i++)
            if (po + i * T + ao <= t && t < po + i * T + ao + fr * T) act = true;
        assertTrue(a.isActive(t) == act, "periodic-active");
        assertEq(a.computeActivation(t), 1, "periodic-value");
    }
}
// the same cost function, described in a configuration file
void config()
{
    char fn[] = "/tmp/p13cfgXXXXXX";
    int reload = symChoice("reload", 2);
    int fd = mkstemp(fn);
    close(fd);
    {
        std::ofstream f(fn);
        f << "term0\n{\n name \"int\"\n kind \"quadratic\"\n type 0\n time_activation\n {\n  kind \"linear\"\n  t_on 1\n  t_off 3\n  slope 2\n  startVal 0.5\n }\n"
             " weights\n {\n  Q\n  {\n   scaling 2\n   (0,0) 1\n   (0,1) 0.25\n   (1,1) 3\n  }\n  R\n  {\n   (0,0) 4\n   (1,0) 0.5\n  }\n"
             "  x_des\n  {\n   (0,0) 0.5\n   (1,0) -1\n  }\n  u_des\n  {\n   (1,0) 2\n  }\n }\n}\n"
             "term1\n{\n name \"fin\"\n kind \"quadratic\"\n type 1\n weights\n {\n  Q\n  {\n   (1,1) 5\n  }\n  x_des\n  {\n   (1,0) 3\n  }\n }\n}\n"
             "term2\n{\n kind \"mixed\"\n type 0\n time_activation\n {\n  kind \"barrier\"\n  alpha 2\n  upper_bound 1\n }\n weights\n {\n  P\n  {\n   (0,1) 7\n   (1,0) 2\n  }\n  x_des\n  {\n   (0,0) 1\n  }\n }\n}\n"
             "term3\n{\n kind \"linear\"\n type 0\n time_activation\n {\n  kind \"single\"\n  t_on 0\n  t_off 2\n }\n weights\n {\n  a\n  {\n   (0,0) 1.5\n  }\n  b\n  {\n   (1,0) -2\n  }\n }\n}\n";
    }
    CA c(fn);
    if (reload)
    {
        // loading replaces whatever terms there were
        c.addIntermediateTerm(std::shared_ptr<UFTerm>(new UFTerm("old")));
        c.addFinalTerm(std::shared_ptr<UFTerm>(new UFTerm("oldf")));
        c.loadFromConfigFile(fn);
    }
    unlink(fn);
    X x = symMat<2>("x");
    U u = symMat<2>("u");
    double t = symReal("t", -1, 4);
    c.setCurrentStateAndControl(x, u, t);
    M2 Q, R, P;
    Q << 2, 0.5, 0, 6;
    R << 4, 0, 0.5, 0;
    P << 0, 7, 2, 0;
    X dx = x - Eigen::Vector2d(0.5, -1.0), dm = x - Eigen::Vector2d(1.0, 0.0);
    U du = u - Eigen::Vector2d(0.0, 2.0);
    double v = 0;
    if (t >= 1 && t < 3) v += (0.5 + 2 * (t - 1)) * (dx.dot(Q * dx) + du.dot(R * du));
    v += exp(2 * (t - 1)) * u.dot(P * dm);
    if (t >= 0 && t < 2) v += 1.5 * x(0) - 2 * u(1);
    assertEq(c.evaluateIntermediate(), v, "config-intermediate");
    assertEq(c.evaluateTerminal(), 5 * (x(1) - 3) * (x(1) - 3), "config-terminal");
    assertTrue(c.getIntermediateTermByName("int") == c.getIntermediateTermById(0), "config-name");
    assertTrue(c.getFinalTermByName("fin") == c.getFinalTermById(0), "config-final-name");
}
// the built-in derivative self test accepts correct derivatives and leaves the cost function where it was
void selftest()
{
    X x = symMat<2>("x");
    U u = symMat<2>("u");
    double t = symReal("t"), sh = symReal("shift");
    M2 Q = M2::Zero();
    CA c;
    X a = symMat<2>("a");
    U b = symMat<2>("b");
    std::shared_ptr<TermLinear<2, 2>> T(new TermLinear<2, 2>(a, b, 0.3));
    T->setTimeActivation(std::shared_ptr<ActivationBase>(new LinearActivation(0.0, 1e9, 1.0, 0.0)));
    c.addIntermediateTerm(T);
    sym_assume_lt(0, t);
    sym_assume_lt(t, 5);
    sym_assume_lt(0, sh);
    sym_assume_lt(sh, 5);
    sym_assume_lt(0.1, a(0));
    sym_assume_lt(0.1, a(1));
    sym_assume_lt(0.1, b(0));
    sym_assume_lt(0.1, b(1));
    c.shiftTime(sh);
    c.setCurrentStateAndControl(x, u, t);
    double v = c.evaluateIntermediate();
    bool ctrl = symChoice("control", 2);
    if (ctrl) c.controlDerivativeIntermediateTest(); else c.stateDerivativeIntermediateTest();
    assertEq(c.evaluateIntermediate(), v, "derivative-test-restores");
    c.setCurrentStateAndControl(x, u, t);
    assertEq(c.evaluateIntermediate(), v, "derivative-test-keeps-shift");
}
void sym_main()
{
    switch (symChoice("mode", 6))
    {
        case 0: return aggregate();
        case 1: return references();
        case 2: return simple();
        case 3: return activations();
        case 4: return config();
        default: return selftest();
    }
}
