// BOUNDS: the 12-state / 4-input quadrotor; every attitude with |tan(angle/2)| <= 10 for roll and yaw and <= 0.8 for pitch (the Euler-angle singularity at pitch = +-pi/2 is outside), every velocity, body rate, thrust and moment symbolic
// SYM: budget=200 qt=60
#include "kcommon.h"
#include <ct/models/Quadrotor/Quadrotor.hpp>
#include <ct/models/Quadrotor/QuadrotorLinear.hpp>
#include <ct_models/src/Quadrotor/A_quadrotor.cpp>
#include <ct_models/src/Quadrotor/B_quadrotor.cpp>
#include <ct_models/src/Quadrotor/C_quadrotor.cpp>
#include <ct_models/src/Quadrotor/quadrotor_ode.cpp>
namespace md = ct::models;
typedef ct::core::StateVector<12> X;
typedef ct::core::ControlVector<4> U;
struct In
{
    X x;
    U u;
    std::vector<double> t;
    In()
    {
        for (int i = 0; i < 12; i++)
            if (i < 3 || i > 5)
                x(i) = symReal("x" + S(i));
            else
            {
                t.push_back(symReal("t" + S(i)));
                x(i) = 2 * std::atan(t.back());
            }
        for (int i = 0; i < 4; i++)
            u(i) = symReal("u" + S(i));
        sym_assume_le(std::fabs(t[1]), 0.8);  // away from the singular pitch
        for (int i = 0; i < 3; i++)
            sym_assume_le(std::fabs(t[i]), 10);
        sym_assume_lt(x.norm(), 1e20);  // the model freezes beyond
    }
    double dqdt(int i) const { return 2 / (1 + t[i - 3] * t[i - 3]); }
};
void linear()
{
    In in;
    md::Quadrotor sys;
    md::QuadrotorLinear lin;
    X dx;
    sys.computeControlledDynamics(in.x, symReal("time"), in.u, dx);
    Eigen::Matrix<double, 12, 12> A = lin.getDerivativeState(in.x, in.u, symReal("time"));
    Eigen::Matrix<double, 12, 4> B = lin.getDerivativeControl(in.x, in.u, symReal("time"));
    for (int i = 0; i < 12; i++)
    {
        for (int j = 0; j < 12; j++)
            if (j < 3 || j > 5)
                assertDeriv(dx(i), "x" + S(j), A(i, j), "A" + S(i) + "," + S(j), 1e-5);
            else
                assertDeriv(dx(i), "t" + S(j), A(i, j) * in.dqdt(j), "A" + S(i) + "," + S(j), 1e-5);
        for (int j = 0; j < 4; j++)
            assertDeriv(dx(i), "u" + S(j), B(i, j), "B" + S(i) + "," + S(j), 1e-5);
    }
}
void rigidBody()
{
    In in;
    std::shared_ptr<ct::core::Controller<12, 4>> ctrl(new ct::core::ConstantController<12, 4>(in.u));
    md::Quadrotor sys0(ctrl);
    std::unique_ptr<md::Quadrotor> sys(sys0.clone());
    X dx;
    sys->computeDynamics(in.x, symReal("time"), dx);
    double ph = in.x(3), th = in.x(4), ps = in.x(5);
    double a = in.x(9), b = in.x(10), c = in.x(11), aa = dx(9), bb = dx(10), cc = dx(11);
    for (int i = 0; i < 6; i++)
        assertEq(dx(i), in.x(6 + i), "kinematics" + S(i));
    // thrust along the body z axis (R = Rx Ry Rz), gravity along -z
    const double m = md::quadrotor::mQ, g = md::quadrotor::grav_const, I = md::quadrotor::Thxxyy, K = md::quadrotor::Thzz;
    assertEq(m * dx(6), in.u(0) * std::sin(th), "force.x", 1e-5);
    assertEq(m * dx(7), -in.u(0) * std::sin(ph) * std::cos(th), "force.y", 1e-5);
    assertEq(m * dx(8), in.u(0) * std::cos(ph) * std::cos(th) - m * g, "force.z", 1e-5);
    // body rates and their time derivative
    double ct = std::cos(th), st = std::sin(th), cp = std::cos(ps), sp = std::sin(ps);
    double wx = a * ct * cp + b * sp, wy = -a * ct * sp + b * cp, wz = a * st + c;
    double dwx = aa * ct * cp - a * st * b * cp - a * ct * sp * c + bb * sp + b * cp * c;
    double dwy = -aa * ct * sp + a * st * b * sp - a * ct * cp * c + bb * cp - b * sp * c;
    double dwz = aa * st + a * ct * b + cc;
    assertEq(I * dwx + (K - I) * wy * wz, in.u(1), "moment.x", 1e-5);
    assertEq(I * dwy + (I - K) * wx * wz, in.u(2), "moment.y", 1e-5);
    assertEq(K * dwz, in.u(3), "moment.z", 1e-5);
}
void sym_main()
{
    if (symChoice("case", 2))
        linear();
    else
        rigidBody();
}
