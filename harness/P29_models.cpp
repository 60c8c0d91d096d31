// BOUNDS: continuous-time process models with 2 states x 1 control, Euler and RK4 propagation, step index 0..2 for the state Jacobian; linear measurement models with 2 outputs; input-disturbance augmentation (2 states, 1-2 controls) incl. copies and controller changes; all values, times and systems symbolic (uninterpreted)
// SYM: budget=250
#include "fcommon.h"
typedef StateVector<2> X;
typedef ControlVector<1> U;
void process()
{
    int rk4 = symChoice("rk4", 2);
    std::shared_ptr<UFCtrlSys<2, 1>> sys(new UFCtrlSys<2, 1>());
    std::shared_ptr<UFLin<2, 1>> lin(new UFLin<2, 1>());
    double dt0 = symPos("dt0"), dt = symPos("dt");
    std::shared_ptr<SensitivityApproximation<2, 1>> sa(new SensitivityApproximation<2, 1>(dt0, lin));
    StateMatrix<2> V = symMat<2, 2>("V");
    CTSystemModel<2, 1> m(sys, sa, V, rk4 ? IntegrationType::RK4CT : IntegrationType::EULERCT);
    if (symChoice("used", 2)) m.computeDynamics(X(symMat<2>("xo")), U(symMat<1>("uo")), symPos("dto"), symReal("to"));
    X x = symMat<2>("x"), x0 = x;
    U u = symMat<1>("u");
    double t = symReal("t");
    auto f = [&](const X& y, double s) { return sys->f(y, u, s); };
    X e = rk4 ? refRK4<2>(f, x, t, dt) : refEuler<2>(f, x, t, dt);
    assertEqM(X(m.computeDynamics(x, u, dt, t)), e, "process-step");
    assertEqM(x, x0, "process-input-unchanged");
    int n = symChoice("n", 3);
    StateMatrix<2> A = m.computeDerivativeState(x, u, dt, (double)n * dt);
    UFCtrlSys<2, 1> ref;
    assertEqM(A, StateMatrix<2>(StateMatrix<2>::Identity() + dt * ref.A(x, u, (double)n * dt)), "process-jacobian");
    assertEqM(StateMatrix<2>(m.computeDerivativeNoise(x, u, dt, t)), V, "process-noise");
}
void nosys()
{
    std::shared_ptr<UFCtrlSys<2, 1>> sys;
    std::shared_ptr<SensitivityApproximation<2, 1>> sa;
    typedef Eigen::Matrix<double, 2, 3> C23;
    StateVector<3> x = symMat<3>("x");
    LTIMeasurementModel<2, 3> d;
    OutputVector<2> y = d.computeMeasurement(x, symReal("t"));
    assertEq(y(0), x(0), "lti-default");
    assertEq(y(1), x(1), "lti-default");
    assertEqM(OutputMatrix<2>(d.computeDerivativeNoise(x, 0.0)), OutputMatrix<2>(OutputMatrix<2>::Zero()), "lti-default-noise");
    OutputStateMatrix<2, 3> C = symMat<2, 3>("C");
    OutputMatrix<2> W = symMat<2, 2>("W");
    LTIMeasurementModel<2, 3> m(C, W), m1(C);
    double t = symReal("t2");
    assertEqM(OutputVector<2>(m.computeMeasurement(x, t)), OutputVector<2>(C * x), "lti-measurement");
    assertEqM(OutputStateMatrix<2, 3>(m.computeDerivativeState(x, t)), C, "lti-jacobian");
    assertEqM(OutputMatrix<2>(m.computeDerivativeNoise(x, t)), W, "lti-noise");
    assertEqM(OutputMatrix<2>(m1.computeDerivativeNoise(x, t)), OutputMatrix<2>(OutputMatrix<2>::Zero()), "lti-no-noise");
}
template <size_t M>
void disturbed()
{
    const size_t N = 2, D = N + M;
    typedef InputDisturbedSystem<N, M> IDS;
    std::shared_ptr<UFController<N, M>> k0(new UFController<N, M>("k")), k1(new UFController<N, M>("q"));
    int ctrl = symChoice("ctrl", 3);  // 0: none, 1: from the nominal system, 2: replaced later
    std::shared_ptr<UFCtrlSys<N, M>> sys(ctrl ? new UFCtrlSys<N, M>(k0, "f") : new UFCtrlSys<N, M>("f"));
    std::shared_ptr<IDS> a(new IDS(sys));
    if (ctrl == 2) a->setController(k1);
    std::shared_ptr<IDS> b = a;
    int cp = symChoice("copy", 2);
    if (cp) b.reset(a->clone());
    StateVector<D> z = symMat<D>("z"), d;
    StateVector<N> x = z.template head<N>();
    ControlVector<M> w = z.template tail<M>(), u = symMat<M>("u");
    double t = symReal("t");
    b->computeControlledDynamics(z, t, u, d);
    assertEqM(StateVector<N>(d.template head<N>()), sys->f(x, ControlVector<M>(u + w), t), "disturbed-dynamics");
    assertEqM(ControlVector<M>(d.template tail<M>()), ControlVector<M>(ControlVector<M>::Zero()), "disturbance-constant");
    if (!ctrl)
    {
        assertTrue(throws([&] { b->computeDynamics(z, t, d); }), "disturbed-no-controller-throws");
        return;
    }
    ControlVector<M> uc = ctrl == 2 ? k1->k(x, t) : k0->k(x, t);
    b->computeDynamics(z, t, d);
    assertEqM(StateVector<N>(d.template head<N>()), sys->f(x, ControlVector<M>(uc + w), t), "disturbed-closed-loop");
    assertEqM(ControlVector<M>(d.template tail<M>()), ControlVector<M>(ControlVector<M>::Zero()), "disturbance-constant");
    ControlVector<M> uu;
    b->getController()->computeControl(z, t, uu);
    assertEqM(uu, uc, "disturbed-controller");
    if (cp)  // a controller set on the copy does not reach the original
    {
        std::shared_ptr<UFController<N, M>> k2(new UFController<N, M>("r"));
        b->setController(k2);
        a->computeDynamics(z, t, d);
        assertEqM(StateVector<N>(d.template head<N>()), sys->f(x, ControlVector<M>(uc + w), t), "copy-independent");
        b->computeDynamics(z, t, d);
        assertEqM(StateVector<N>(d.template head<N>()), sys->f(x, ControlVector<M>(k2->k(x, t) + w), t), "copy-controller");
    }
}
void sym_main()
{
    int c = symChoice("case", 4);
    if (c == 0) process();
    if (c == 1) nosys();
    if (c == 2) disturbed<1>();
    if (c == 3) disturbed<2>();
}
