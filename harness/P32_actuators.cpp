// BOUNDS: 2 joints; second-order actuators (all four constructors, clones), first-order series-elastic actuators, per-joint PID position controllers over 3 control computations with a setpoint/gain change or reset in between, selection matrices of fixed-base (dims 1..7) and floating-base (6+1..6+3) systems; all values symbolic (PID gains, setpoints and states within +-100)
// SYM: budget=240
#include "common.h"
#include <ct/rbd/state/JointState.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder.h>
#include <ct/rbd/robot/actuator/SEADynamicsFirstOrder-impl.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h>
#include <ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h>
#include <ct/rbd/robot/control/SelectionMatrix.h>
#include <ct/rbd/robot/control/SelectionMatrix-impl.h>
#include <ct/rbd/robot/control/JointPositionPIDController.h>
#include <ct/rbd/robot/control/JointPositionPIDController-impl.h>
using namespace ct::rbd;
typedef Eigen::Matrix<double, 2, 1> V2;
typedef JointState<2> J;
void second()
{
    typedef SecondOrderActuatorDynamics<2> A;
    V2 w, z, g;
    int c = symChoice("ctor", 4);
    for (int i = 0; i < 2; i++)
    {
        bool first = i == 0 || c >= 2;
        w(i) = first ? symPos("w" + S(i)) : w(0);
        z(i) = first ? symReal("z" + S(i)) : z(0);
        g(i) = c % 2 == 0 ? 1.0 : first ? symReal("g" + S(i)) : g(0);
    }
    std::vector<double> wv{w(0), w(1)}, zv{z(0), z(1)}, gv{g(0), g(1)};
    std::shared_ptr<A> a;
    if (c == 0) a.reset(new A(w(0), z(0)));
    if (c == 1) a.reset(new A(w(0), z(0), g(0)));
    if (c == 2) a.reset(new A(wv, zv));
    if (c == 3) a.reset(new A(wv, zv, gv));
    if (c >= 2)
    {
        std::vector<double> bad{w(0)};
        assertTrue(throws([&] { A b(bad, zv); }), "size-checked");
        assertTrue(throws([&] { A b(wv, zv, bad); }), "size-checked");
    }
    if (symChoice("clone", 2)) a.reset(a->clone());
    J q(Eigen::Matrix<double, 4, 1>(symMat<4>("q")));
    StateVector<4> s = symMat<4>("s"), d;
    ControlVector<2> u = symMat<2>("u");
    a->computeActuatorDynamics(q, s, symReal("t"), u, d);
    for (int i = 0; i < 2; i++)
    {
        assertEq(d(i), s(2 + i), "actuator-velocity");
        assertEq(d(2 + i), g(i) * w(i) * w(i) * u(i) - 2 * z(i) * w(i) * s(2 + i) - w(i) * w(i) * s(i), "actuator-acceleration");
    }
    ControlVector<2> o = a->computeControlOutput(q, s);
    assertEq(o(0), s(0), "actuator-output");
    assertEq(o(1), s(1), "actuator-output");
    // the reconstructed state gives the requested output, and is at rest
    StateVector<4> r = a->computeStateFromOutput(q, u);
    assertEqM(V2(a->computeControlOutput(q, r)), V2(u), "actuator-reconstruction");
    a->computeActuatorDynamics(q, r, 0.0, u, d);
    for (int i = 0; i < 2; i++)
    {
        assertEq(d(i), 0, "actuator-reconstruction-rest");
        if (c % 2 == 0) assertEq(d(2 + i), 0, "actuator-unit-amplification");
    }
}
void sea()
{
    typedef SEADynamicsFirstOrder<2> A;
    double k = symPos("k"), g = symPos("g");
    std::shared_ptr<A> a(new A(k, g));
    if (symChoice("clone", 2)) a.reset(a->clone());
    J q(Eigen::Matrix<double, 4, 1>(symMat<4>("q")));
    StateVector<2> s = symMat<2>("s"), d;
    ControlVector<2> u = symMat<2>("u");
    a->computeActuatorDynamics(q, s, symReal("t"), u, d);
    ControlVector<2> o = a->computeControlOutput(q, s);
    StateVector<2> r = a->computeStateFromOutput(q, u);
    ControlVector<2> o2 = a->computeControlOutput(q, r);
    for (int i = 0; i < 2; i++)
    {
        assertEq(d(i) * g, u(i), "sea-gear");
        assertEq(o(i), k * (s(i) - q.getPosition(i)), "sea-torque");
        assertEq(o2(i), u(i), "sea-reconstruction");
    }
}
// bounded, so that the default (infinite) saturation of the joint controllers stays inactive
static double bd(const std::string& n) { return symIn(n, -100, 100); }
void pid()
{
    typedef JointPositionPIDController<2> C;
    typedef PIDController<double> P;
    V2 p(bd("p0"), bd("p1")), v(bd("v0"), bd("v1"));
    int same = symChoice("same", 2);
    std::vector<P::parameters_t> par;
    for (int i = 0; i < 2; i++)
    {
        std::string s = same ? "" : S(i);
        par.push_back(P::parameters_t(bd("kp" + s), bd("ki" + s), bd("kd" + s), symIn("dt" + s, 0.01, 1)));
    }
    std::shared_ptr<C> c(same ? new C(p, v, par[0]) : new C(p, v, par));
    P r[2] = {P(par[0], P::setpoint_t(p(0), v(0))), P(par[1], P::setpoint_t(p(1), v(1)))};
    int op = symChoice("op", 5);
    for (int k = 0; k < 3; k++)
    {
        StateVector<4> x;
        for (int i = 0; i < 4; i++) x(i) = bd("x" + S(k) + S(i));
        double t = (double)k;
        ControlVector<2> u;
        c->computeControl(x, t, u);
        for (int i = 0; i < 2; i++) assertEq(u(i), r[i].computeControl(x(i), x(2 + i), t), "joint-pid");
        if (k == 0)
        {
            V2 n(bd("n0"), bd("n1"));
            if (op == 1)
            {
                c->setDesiredPosition(n);
                for (int i = 0; i < 2; i++) r[i].setDesiredState(n(i));
            }
            if (op == 2)
            {
                int j = symChoice("j", 2);
                c->setDesiredPosition(n(0), j);
                r[j].setDesiredState(n(0));
            }
            if (op == 3)
            {
                double kp = bd("nkp"), ki = bd("nki"), kd = bd("nkd");
                c->setAllPIDGains(kp, ki, kd);
                for (int i = 0; i < 2; i++) r[i].changeParameters(P::parameters_t(kp, ki, kd));
            }
            if (op == 4)
            {
                c->reset();
                for (int i = 0; i < 2; i++) r[i].reset();
            }
        }
    }
}
template <size_t M, size_t N>
void sel(bool fb)
{
    SelectionMatrix<M, N> s(fb), c(s);
    Eigen::Matrix<double, M, 1> tau = symMat<M>("tau");
    Eigen::Matrix<double, N, 1> f = s.transpose() * tau, f2 = c.transpose() * tau;
    assertEqM(f, f2, "selection-copy");
    for (size_t i = 0; i < N; i++) assertEq(f(i), i < N - M ? 0.0 : tau(i - (N - M)), "selection");
}
void sym_main()
{
    switch (symChoice("what", 4))
    {
        case 0: second(); break;
        case 1: sea(); break;
        case 2: pid(); break;
        default:
            sel<1, 1>(false);
            sel<1, 2>(false);
            sel<2, 2>(false);
            sel<2, 5>(false);
            sel<6, 6>(false);
            sel<3, 7>(false);
            sel<7, 7>(false);
            sel<1, 7>(true);
            sel<2, 8>(true);
            sel<3, 9>(true);
            typedef SelectionMatrix<2, 4> S24;
            assertTrue(throws([&] { S24 s(true); }), "selection-floating-small");
    }
}
