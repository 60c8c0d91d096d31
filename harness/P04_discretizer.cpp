// BOUNDS: SystemDiscretizer: state dim 2 (generic) / 1+1 (symplectic), 1 control, up to 2 (thorough 3) substeps, step index in {0,1,3}; arbitrary dynamics f(x,u,t); schemes EULER/EULERCT/RK4/RK4CT/symplectic Euler; fresh, cloned, copied, re-parameterised objects
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<1> U;
template <typename D, typename STEP>
void run(D& d, int K, double dt, const X& x0, const U& u, int n, STEP step, const std::string& l)
{
    X x = x0, y;
    StateVectorArray<2> sub;
    double h = dt / K;
    for (int i = 0; i < K; i++)
    {
        sub.push_back(x);
        x = step(x, u, n * dt + i * h, h);
    }
    d.propagateControlledDynamics(x0, n, u, y);
    assertEqM(y, x, l + "-next-state");
}
void sym_main()
{
    X x0 = symMat<2>("x"), x1 = symMat<2>("w");
    U u0 = symMat<1>("u"), u1 = symMat<1>("v");
    double dt = symIn("dt", 0.01, 2), dt2 = symIn("dt2", 0.01, 2);
    int K = 1 + symChoice("K", THOROUGH ? 3 : 2);
    int ns[3] = {0, 1, 3};
    int n = ns[symChoice("n", 3)];
    int type = symChoice("type", 5);
    int how = symChoice("how", 5);
    if (type < 4)
    {
        IntegrationType types[4] = {EULER, EULERCT, RK4, RK4CT};
        auto sys = std::make_shared<UFCtrlSys<2, 1>>("f");
        typedef SystemDiscretizer<2, 1> D;
        auto step = [&](const X& x, const U& u, double t, double h) -> X {
            auto f = [&](const X& y, double s) -> X { return sys->f(y, u, s); };
            return type >= 2 ? refRK4<2>(f, x, t, h) : refEuler<2>(f, x, t, h);
        };
        D d(sys, dt, types[type], K);
        if (how == 0)
        {
            run(d, K, dt, x0, u0, n, step, "first");
            run(d, K, dt, x1, u1, n + 2, step, "second");
            // substates / subcontrols of the last call
            auto sx = d.getSubstates();
            auto su = d.getSubcontrols();
            assertTrue(sx && su, "substeps-recorded");
            int S = type >= 2 ? 4 : 1;
            assertTrue((int)sx->size() == S * K && (int)su->size() == S * K, "substeps-length");
            X x = x1;
            double h = dt / K, t = (n + 2) * dt;
            for (int i = 0; i < K; i++)
            {
                if ((int)sx->size() <= S * i) break;
                assertEqM((*sx)[S * i], x, "substates");
                assertEqM((*su)[S * i], u1, "subcontrols");
                x = step(x, u1, t + i * h, h);
            }
        }
        else if (how == 1)
        {
            std::shared_ptr<D> c(d.clone());
            run(*c, K, dt, x0, u0, n, step, "clone");
            run(d, K, dt, x1, u1, n, step, "cloned-from");
            run(*c, K, dt, x1, u0, n, step, "clone");
        }
        else if (how == 2)
        {
            D c(d);
            d.setParameters(dt2, 1);
            run(c, K, dt, x0, u0, n, step, "copy");
            run(d, 1, dt2, x0, u1, n, step, "reparameterised");
        }
        else if (how == 3)
        {
            // set up in steps
            D e(dt2, EULER, 1);
            e.setParameters(dt, K);
            e.setIntegrationType(types[type]);
            auto other = std::make_shared<UFCtrlSys<2, 1>>("g");
            e.changeContinuousTimeSystem(other);
            e.changeContinuousTimeSystem(sys);
            run(e, K, dt, x0, u0, n, step, "stepwise");
        }
        else
        {
            // the caller's system and its controller are not touched, and the controller of the system is not used
            auto k = std::make_shared<UFController<2, 1>>("k");
            sys->setController(k);
            D e(sys, dt, types[type], K);
            run(e, K, dt, x0, u0, n, step, "controlled");
            std::shared_ptr<Controller<2, 1>> kk;
            sys->getController(kk);
            assertTrue(kk == k, "callers-controller-kept");
            // aliasing of input and output
            X y = x0, r;
            e.propagateControlledDynamics(x0, n, u0, r);
            e.propagateControlledDynamics(y, n, u0, y);
            assertEqM(y, r, "in-place");
        }
    }
    else
    {
        auto sys = std::make_shared<UFSymp<1, 1, 1>>("f");
        typedef SystemDiscretizer<2, 1, 1, 1> D;
        auto step = [&](const X& x, const U& u, double, double h) -> X { return sys->symplecticEuler(x, u, h); };
        D d(sys, dt, EULER_SYM, K);
        if (how == 1 || how == 2)
        {
            std::shared_ptr<D> c(d.clone());
            run(*c, K, dt, x0, u0, n, step, "sym-clone");
            run(d, K, dt, x1, u1, n, step, "sym-cloned-from");
        }
        else
        {
            run(d, K, dt, x0, u0, n, step, "sym");
            run(d, K, dt, x1, u1, n, step, "sym-second");
            auto sx = d.getSubstates();
            auto su = d.getSubcontrols();
            assertTrue(sx && su && (int)sx->size() == K && (int)su->size() == K, "sym-substeps-length");
            X x = x1;
            for (int i = 0; i < K && i < (int)sx->size(); i++)
            {
                assertEqM((*sx)[i], x, "sym-substates");
                assertEqM((*su)[i], u1, "sym-subcontrols");
                x = step(x, u1, 0, dt / K);
            }
        }
    }
}
