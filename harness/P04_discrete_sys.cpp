// BOUNDS: discrete-time systems: state dim 2, control dim 1, arbitrary F(x,u,n) and controller k(x,n); step index 0..2; discrete linear systems with symbolic matrices
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<1> U;
void sym_main()
{
    X x = symMat<2>("x");
    int n = symChoice("n", 3);
    auto k = std::make_shared<UFDiscController<2, 1>>("k");
    UFDiscSys<2, 1> s(k, "F");
    X y;
    int mode = symChoice("mode", 5);
    if (mode == 0)
    {
        s.propagateDynamics(x, n, y);
        assertEqM(y, s.F(x, n, k->k(x, n)), "closed-loop");
        s.setController(nullptr);
        s.propagateDynamics(x, n, y);
        assertEqM(y, s.F(x, n, U(U::Zero())), "no-controller");
    }
    else if (mode == 1)
    {
        std::shared_ptr<UFDiscSys<2, 1>> c(s.clone());
        k->gain = symReal("gain");
        c->propagateDynamics(x, n, y);
        UFDiscController<2, 1> orig("k");
        assertEqM(y, s.F(x, n, orig.k(x, n)), "clone-independent");
        s.propagateDynamics(x, n, y);
        assertEqM(y, s.F(x, n, k->k(x, n)), "original-sees-change");
    }
    else if (mode == 2)
    {
        UFDiscSys<2, 1> e("F");
        e.propagateDynamics(x, n, y);
        assertEqM(y, e.F(x, n, U(U::Zero())), "open-loop");
        e.setController(k);
        e.propagateDynamics(x, n, y);
        assertEqM(y, e.F(x, n, k->k(x, n)), "controller-set");
        std::shared_ptr<DiscreteController<2, 1>> g;
        e.getController(g);
        assertTrue(g == k && e.getController() == k, "getController");
    }
    else if (mode == 3)
    {
        // continuous-time controlled system: closed loop, open loop, copies
        auto kc = std::make_shared<UFController<2, 1>>("kc");
        UFCtrlSys<2, 1> c(kc, "f");
        double t = symReal("t");
        c.computeDynamics(x, t, y);
        assertEqM(y, c.f(x, kc->k(x, t), t), "ct-closed-loop");
        assertEqM(c.getLastControlAction(), kc->k(x, t), "ct-last-control");
        std::shared_ptr<UFCtrlSys<2, 1>> d(c.clone());
        std::shared_ptr<Controller<2, 1>> kk;
        d->getController(kk);
        assertTrue(kk && kk != kc, "ct-clone-owns-controller");
        d->computeDynamics(x, t, y);
        assertEqM(y, c.f(x, kc->k(x, t), t), "ct-clone-closed-loop");
        c.setController(nullptr);
        c.computeDynamics(x, t, y);
        assertEqM(y, c.f(x, U(U::Zero()), t), "ct-open-loop");
    }
    else
    {
        // constant controller, usable in both worlds
        U u = symMat<1>("u"), v = symMat<1>("v"), r;
        ConstantController<2, 1> cc(u);
        double t = symReal("t");
        r = symMat<1>("stale");
        cc.computeControl(x, t, r);
        assertEqM(r, u, "constant-ct");
        r = symMat<1>("stale");
        cc.computeControl(x, n, r);
        assertEqM(r, u, "constant-dt");
        std::shared_ptr<ConstantController<2, 1>> c(cc.clone());
        cc.setControl(v);
        r = symMat<1>("stale");
        c->computeControl(x, n, r);
        assertEqM(r, u, "constant-clone");
        r = symMat<1>("stale");
        cc.computeControl(x, t, r);
        assertEqM(r, v, "constant-set");
        assertEqM(cc.getDerivativeU0(x, t), Eigen::Matrix<double, 1, 1>(Eigen::Matrix<double, 1, 1>::Identity()), "constant-dU0");
        ConstantController<2, 1> z;
        r = symMat<1>("stale");
        z.computeControl(x, t, r);
        assertEqM(r, U(U::Zero()), "constant-default-zero");
    }
}
