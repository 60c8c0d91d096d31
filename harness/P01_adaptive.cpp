// BOUNDS: integrate_adaptive / integrate_times: fixed-step schemes with arbitrary f(x,t) and up to 2 full steps plus a rest per interval, symbolic step and times; adaptive schemes (ODE45, RK5VARIABLE, BULIRSCHSTOER) on dynamics with constant derivative (one concrete moving and one symbolic constant component), three given times; symplectic Euler, up to 3 steps
// SYM: budget=150
#include "common.h"
typedef StateVector<2> X;
struct Rec : public EventHandler<2>
{
    std::vector<double> t;
    std::vector<X, Eigen::aligned_allocator<X>> x;
    bool callOnSubsteps() override { return true; }
    bool checkEvent(const X&, const double&) override { return true; }
    void handleEvent(const X& s, const double& tt) override
    {
        t.push_back(tt);
        x.push_back(s);
    }
    void reset() override
    {
        t.clear();
        x.clear();
    }
};
struct Const : public System<2>
{
    X c;
    Const* clone() const override { return new Const(*this); }
    void computeDynamics(const X&, const double&, X& d) override { d = c; }
};
void fixedSteps()
{
    auto sys = std::make_shared<UFSys<2>>("f");
    auto f = [&](const X& x, double t) -> X { return sys->f(x, t); };
    X x0 = symMat<2>("x");
    double t0 = symReal("t0"), h = symPos("h");
    int rk = symChoice("rk4", 2), api = symChoice("api", 3);
    Integrator<2> I(sys, rk ? RK4 : EULER);
    auto step = [&](const X& x, double t, double d) -> X { return rk ? X(refRK4<2>(f, x, t, d)) : X(refEuler<2>(f, x, t, d)); };
    sym_assume_le(0.001, h);
    sym_assume_le(h, 10);
    X x = x0;
    if (api < 2)
    {
        // n full steps and a rest
        int n = symChoice("full", 3);
        double r = symPos("rest");
        sym_assume_lt(0.01 * h, r);
        sym_assume_lt(r, 0.99 * h);
        double T = n * h + r;
        StateVectorArray<2> xs;
        TimeArray ts;
        std::vector<X, Eigen::aligned_allocator<X>> ref(1, x0);
        for (int k = 0; k < n; k++) ref.push_back(step(ref[k], t0 + k * h, h));
        ref.push_back(step(ref[n], t0 + n * h, r));
        if (api == 0) I.integrate_adaptive(x, t0, t0 + T, h);
        else
        {
            I.integrate_adaptive(x, t0, t0 + T, xs, ts, h);
            assertTrue(xs.size() == ref.size() && ts.size() == ref.size(), "adaptive-length");
            for (size_t k = 0; k < ref.size() && k < xs.size(); k++)
            {
                assertEqM(xs[k], ref[k], "adaptive-states");
                assertEq(ts[k], k < ref.size() - 1 ? t0 + k * h : t0 + T, "adaptive-times");
            }
        }
        assertEqM(x, ref.back(), "adaptive-final");
        return;
    }
    // given times: each interval is covered by full steps and a rest
    double a = symPos("a"), b = symPos("b");
    sym_assume_lt(a, 1.9 * h);
    sym_assume_lt(b, 0.9 * h);
    sym_assume_lt(0.1 * h, a);
    sym_assume_lt(0.1 * h, b);
    bool more = a > h;
    if (more) sym_assume_lt(1.1 * h, a);
    else sym_assume_lt(a, 0.9 * h);
    TimeArray ts;
    ts.push_back(t0);
    ts.push_back(t0 + a);
    ts.push_back(t0 + a + b);
    StateVectorArray<2> xs;
    I.integrate_times(x, ts, xs, h);
    X y = x0, y1, y2;
    if (more)
    {
        y = step(y, t0, h);
        y1 = step(y, t0 + h, a - h);
    }
    else
        y1 = step(y, t0, a);
    y2 = step(y1, t0 + a, b);
    assertTrue(xs.size() == 3, "times-length");
    if (xs.size() != 3) return;
    assertEqM(xs[0], x0, "times-first");
    assertEqM(xs[1], y1, "times-second");
    assertEqM(xs[2], y2, "times-third");
    assertEqM(x, y2, "times-state");
}
void adaptive()
{
    int type = symChoice("type", 3), api = symChoice("api", 3), again = symChoice("again", 2);
    IntegrationType types[3] = {ODE45, RK5VARIABLE, BULIRSCHSTOER};
    auto sys = std::make_shared<Const>();
    // (all step size decisions stay concrete: a concrete moving component and a symbolic one at rest)
    X x0 = symMat<2>("x"), c;
    x0(0) = 1;
    c << 0.5, 0.0;
    sys->c = c;
    Integrator<2> I(sys, types[type]);
    const double t[3] = {0.5, 0.625, 0.875};
    X x = x0;
    StateVectorArray<2> xs;
    TimeArray ts;
    if (again)
    {
        X y = X(2.0 * x0);
        TimeArray tt;
        for (double v : t) tt.push_back(v + 1);
        if (api == 2) I.integrate_times(y, tt, xs, 0.01);
        else I.integrate_adaptive(y, 0.0, 0.125, xs, ts, 0.01);
        xs.clear();
        ts.clear();
    }
    if (api == 0) I.integrate_adaptive(x, t[0], t[2], 0.01);
    if (api == 1)
    {
        I.integrate_adaptive(x, t[0], t[2], xs, ts, 0.01);
        assertTrue(xs.size() == ts.size() && xs.size() > 1, "variable-length");
        assertEq(ts.front(), t[0], "variable-first-time");
        assertEq(ts.back(), t[2], "variable-last-time");
        for (size_t k = 0; k < xs.size() && k < ts.size(); k++)
        {
            assertEqM(xs[k], X(x0 + (ts[k] - t[0]) * c), "variable-states", 1e-6);
            if (k) assertTrue(ts[k - 1] < ts[k], "variable-increasing");
        }
    }
    if (api == 2)
    {
        TimeArray tt;
        for (double v : t) tt.push_back(v);
        I.integrate_times(x, tt, xs, 0.01);
        assertTrue(xs.size() == 3, "variable-times-length");
        for (size_t k = 0; k < 3 && k < xs.size(); k++) assertEqM(xs[k], X(x0 + (t[k] - t[0]) * c), "variable-times-states", 1e-6);
        return;
    }
    assertEqM(x, X(x0 + (t[2] - t[0]) * c), "variable-final", 1e-6);
}
// error tolerances set by the user decide how finely an adaptive scheme steps
struct Growth : public System<2>
{
    Growth* clone() const override { return new Growth(*this); }
    void computeDynamics(const X& x, const double& t, X& d) override { d << 40 * t * t * t * t * x(0), 0.0; }
};
void tolerances()
{
    int type = symChoice("type", 2);
    IntegrationType types[2] = {ODE45, RK5VARIABLE};
    auto sys = std::make_shared<Growth>();
    X x0 = symMat<2>("x");
    x0(0) = 1;
    size_t n[2];
    for (int k = 0; k < 2; k++)
    {
        Integrator<2> I(sys, types[type]);
        I.setApadativeErrorTolerances(k ? 1e-2 : 1e-8, k ? 1e-2 : 1e-8);
        X x = x0;
        StateVectorArray<2> xs;
        TimeArray ts;
        I.integrate_adaptive(x, 0.0, 1.0, xs, ts, 0.01);
        n[k] = xs.size();
        assertEq(ts.back(), 1.0, "tolerance-final-time");
        assertEq(x(1), x0(1), "tolerance-final-rest");
        assertTrue(std::abs(x(0) - std::exp(8.0)) < (k ? 500 : 0.01), "tolerance-accuracy");
    }
    assertTrue(n[1] < n[0], "tolerance-respected");
}
void symplectic()
{
    auto sys = std::make_shared<UFSymp<1, 1, 1>>();
    ControlVector<1> u = symMat<1>("u");
    auto ctrl = std::make_shared<ConstantController<2, 1>>(u);
    sys->setController(ctrl);
    auto rec = std::make_shared<Rec>();
    IntegratorSymplecticEuler<1, 1, 1> I(sys, rec);
    X x0 = symMat<2>("x"), x = x0;
    double t0 = symReal("t0"), h = symPos("h");
    int n = 1 + symChoice("n", 3);
    StateVectorArray<2> xs;
    TimeArray ts;
    std::vector<X, Eigen::aligned_allocator<X>> ref(1, x0);
    for (int k = 0; k < n; k++) ref.push_back(sys->symplecticEuler(ref[k], u, h));
    int api = symChoice("api", 2);
    if (symChoice("again", 2))
    {
        X y = symMat<2>("y");
        I.integrate_n_steps(y, t0 + 1, 1, h);
        I.reset();
    }
    if (api) I.integrate_n_steps(x, t0, n, h, xs, ts);
    else I.integrate_n_steps(x, t0, n, h);
    assertEqM(x, ref[n], "symplectic-final");
    if (api)
    {
        assertTrue((int)xs.size() == n + 1 && (int)ts.size() == n + 1, "symplectic-length");
        for (int k = 0; k <= n && k < (int)xs.size(); k++)
        {
            assertEqM(xs[k], ref[k], "symplectic-states");
            assertEq(ts[k], t0 + k * h, "symplectic-times");
        }
    }
    assertTrue((int)rec->x.size() == n, "symplectic-substeps");
    for (int k = 0; k < n && k < (int)rec->x.size(); k++)
    {
        assertEqM(rec->x[k], ref[k], "symplectic-substep-state");
        assertEq(rec->t[k], t0 + k * h, "symplectic-substep-time");
    }
}
void sym_main()
{
    int c = symChoice("kind", 4);
    if (c == 0) fixedSteps();
    if (c == 1) adaptive();
    if (c == 2) symplectic();
    if (c == 3) tolerances();
}
