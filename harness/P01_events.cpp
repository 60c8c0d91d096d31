// BOUNDS: event handlers and integrate_const: dimension 2, up to 3 steps; symbolic step width, start and end time
#include "common.h"
struct Rec : public EventHandler<2>
{
    bool sub;
    std::vector<double> t;
    std::vector<StateVector<2>, Eigen::aligned_allocator<StateVector<2>>> x;
    int resets = 0;
    Rec(bool s) : sub(s) {}
    bool callOnSubsteps() override { return sub; }
    bool checkEvent(const StateVector<2>& s, const double& tt) override { return true; }
    void handleEvent(const StateVector<2>& s, const double& tt) override
    {
        t.push_back(tt);
        x.push_back(s);
    }
    void reset() override
    {
        resets++;
        t.clear();
        x.clear();
    }
};
void sym_main()
{
    typedef StateVector<2> X;
    int mode = symChoice("mode", 4);
    auto sys = std::make_shared<UFSys<2>>("f");
    auto f = [&](const X& x, double t) -> X { return sys->f(x, t); };
    X x0;
    x0 << symReal("x0"), symReal("x1");
    double t0 = symReal("t0"), h = symPos("h");
    if (mode == 0)
    {
        // handlers see every accepted step (or every evaluation), in time order, and are reset per call
        int type = symChoice("type", 4);
        IntegrationType types[4] = {EULER, EULERCT, RK4, RK4CT};
        int n = 1 + symChoice("n", 3);
        auto a = std::make_shared<Rec>(false), b = std::make_shared<Rec>(true);
        Integrator<2>::EventHandlerPtrVector ev;
        ev.push_back(a);
        ev.push_back(b);
        Integrator<2> I(sys, types[type], ev);
        X x = x0;
        I.integrate_n_steps(x, t0, n, h);
        x = x0;
        I.integrate_n_steps(x, t0, n, h);
        std::vector<X, Eigen::aligned_allocator<X>> ref(1, x0), stage;
        std::vector<double> st;
        for (int k = 0; k < n; k++)
        {
            X y = ref[k];
            double t = t0 + k * h;
            stage.push_back(y);
            st.push_back(t);
            if (type >= 2)
            {
                X k1 = f(y, t), k2 = f(X(y + 0.5 * h * k1), t + 0.5 * h), k3 = f(X(y + 0.5 * h * k2), t + 0.5 * h);
                stage.push_back(X(y + 0.5 * h * k1));
                stage.push_back(X(y + 0.5 * h * k2));
                stage.push_back(X(y + h * k3));
                st.push_back(t + 0.5 * h);
                st.push_back(t + 0.5 * h);
                st.push_back(t + h);
                ref.push_back(refRK4<2>(f, y, t, h));
            }
            else
                ref.push_back(refEuler<2>(f, y, t, h));
        }
        int off = (int)a->x.size() - (n + 1);
        assertTrue(off == 0 || (off == -1 && (type == 1 || type == 3)), "observed-steps");
        if (off == 0 || off == -1)
            for (int k = -off; k <= n; k++)
            {
                assertEqM(a->x[k + off], ref[k], "observed-state");
                assertEq(a->t[k + off], t0 + k * h, "observed-time");
            }
        assertTrue(b->x.size() == stage.size(), "observed-substeps");
        if (b->x.size() == stage.size())
            for (size_t k = 0; k < stage.size(); k++)
            {
                assertEqM(b->x[k], stage[k], "observed-substep-state");
                assertEq(b->t[k], st[k], "observed-substep-time");
            }
    }
    else if (mode == 1)
    {
        // step limit: integration of n steps is refused exactly if more than the limit is observed
        int type = symChoice("type", 2), lim = symChoice("limit", 4), n = 1 + symChoice("n", 3);
        auto ms = std::make_shared<MaxStepsEventHandler<2>>(lim);
        Integrator<2> I(sys, type ? RK4CT : EULERCT, ms);
        X x = x0;
        bool th = throws([&]() { I.integrate_n_steps(x, t0, n, h); });
        assertTrue(th == (n > lim), "max-steps");
        // limit applies per call
        X y = x0;
        bool th2 = throws([&]() { I.integrate_n_steps(y, t0, n, h); });
        assertTrue(th2 == th, "max-steps-per-call");
    }
    else if (mode == 2)
    {
        // integrate_const steps until the end time is reached and never beyond it
        int type = symChoice("type", 2);
        sym_assume_le(0.001, h);
        sym_assume_le(h, 10);
        double T = symReal("T", 0, 6);
        sym_assume_lt(0, T);
        sym_assume_lt(T, 3 * h);
        sym_assume_ne(T, h);
        sym_assume_ne(T, 2 * h);
        // stay away from the rounding guard of the step count
        bool one = T < h, two = T < 2 * h;
        int n = one ? 0 : two ? 1 : 2;
        sym_assume_lt(n * h + 0.001 * h, T);
        sym_assume_lt(T, (n + 1) * h - 0.001 * h);
        Integrator<2> I(sys, type ? RK4 : EULER);
        X x = x0;
        StateVectorArray<2> xs;
        TimeArray ts;
        I.integrate_const(x, t0, t0 + T, h, xs, ts);
        X r = x0;
        for (int k = 0; k < n; k++) r = type ? refRK4<2>(f, r, t0 + k * h, h) : refEuler<2>(f, r, t0 + k * h, h);
        assertEqM(x, r, "const-final");
        assertTrue((int)xs.size() == n + 1 && ts.size() == xs.size(), "const-length");
        if ((int)xs.size() == n + 1)
        {
            assertEqM(xs.front(), x0, "const-first");
            assertEqM(xs.back(), r, "const-last");
            assertEq(ts.front(), t0, "const-t-first");
            assertEq(ts.back(), t0 + n * h, "const-t-last");
        }
    }
    else
    {
        // a killed integration stops, a reset one goes on
        auto kh = std::make_shared<KillIntegrationEventHandler<2>>();
        kh->setEvent();
        assertTrue(kh->checkEvent(x0, t0) && throws([&]() { kh->handleEvent(x0, t0); }), "kill");
        kh->resetEvent();
        assertTrue(!kh->checkEvent(x0, t0), "kill-reset");
    }
}
