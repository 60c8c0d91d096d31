// BOUNDS: fixed-step integration: state dimension 2, up to 3 steps (quick) / 4 (thorough); arbitrary f(x,t) or f(x,k(x,t),t); Euler/RK4, both implementations
#include "common.h"
void sym_main()
{
    typedef StateVector<2> X;
    int type = symChoice("type", 4);
    IntegrationType types[4] = {EULER, EULERCT, RK4, RK4CT};
    bool rk = type >= 2;
    int n = 1 + symChoice("n", THOROUGH ? 4 : 3);
    int ctrl = symChoice("controlled", 2);
    int api = symChoice("api", 3);
    X x0;
    x0 << symReal("x0"), symReal("x1");
    double t0 = symReal("t0"), h = symPos("h");
    auto sys = std::make_shared<UFSys<2>>("f");
    auto con = std::make_shared<UFController<2, 1>>("k");
    auto csys = std::make_shared<UFCtrlSys<2, 1>>(con, "g");
    std::shared_ptr<System<2>> s = sys;
    if (ctrl) s = csys;
    auto f = [&](const X& x, double t) -> X { return ctrl ? X(csys->f(x, con->k(x, t), t)) : X(sys->f(x, t)); };
    std::vector<X, Eigen::aligned_allocator<X>> ref(1, x0);
    for (int k = 0; k < n; k++)
        ref.push_back(rk ? refRK4<2>(f, ref[k], t0 + k * h, h) : refEuler<2>(f, ref[k], t0 + k * h, h));
    IntegrationType startType = types[type];
    Integrator<2> I(s, symChoice("switched_type", 2) ? EULERCT : startType);
    I.changeIntegrationType(startType);
    X x = x0;
    StateVectorArray<2> xs;
    TimeArray ts;
    if (api == 0)
        I.integrate_n_steps(x, t0, n, h);
    else if (api == 1)
        I.integrate_n_steps(x, t0, n, h, xs, ts);
    else
    {
        // integrating twice with the same object gives the same result (no state is carried over)
        X y = x0;
        I.integrate_n_steps(y, t0, 1, h, xs, ts);
        xs.clear();
        ts.clear();
        I.integrate_n_steps(x, t0, n, h, xs, ts);
    }
    assertEqM(x, ref[n], "final-state");
    if (api > 0)
    {
        int off = (int)xs.size() - (n + 1);
        bool ct = type == 1 || type == 3;
        assertTrue(xs.size() == ts.size() && (off == 0 || (ct && off == -1)), "trajectory-length");
        if (xs.size() == ts.size() && off <= 0 && off >= -1)
            for (int k = -off; k <= n; k++)
            {
                assertEqM(xs[k + off], ref[k], "trajectory-state");
                assertEq(ts[k + off], t0 + k * h, "trajectory-time");
            }
    }
    if (ctrl)
    {
        // the system remembers the control it applied last
        X last = ref[n - 1];
        double tl = t0 + (n - 1) * h;
        if (rk)
        {
            X k1 = f(last, tl), k2 = f(X(last + 0.5 * h * k1), tl + 0.5 * h), k3 = f(X(last + 0.5 * h * k2), tl + 0.5 * h);
            last = last + h * k3;
            tl = tl + h;
        }
        assertEqM(csys->getLastControlAction(), con->k(last, tl), "last-control");
    }
}
