// BOUNDS: one and two link pendulum; every joint angle other than pi, joint velocity, acceleration, torque, external wrench symbolic; for the dynamics also every link mass, centre of mass and inertia tensor
// SYM: budget=250 qt=60
#define EIGEN_NO_DEBUG
#include "kcommon.h"
#include <ct/models/InvertedPendulum/generated/transforms.h>
#include <ct/models/InvertedPendulum/generated/jacobians.h>
#include <ct/models/InvertedPendulum/generated/jsim.h>
#include <ct/models/InvertedPendulum/generated/forward_dynamics.h>
#include <ct/models/InvertedPendulum/generated/inverse_dynamics.h>
#include <ct/models/DoubleInvertedPendulum/generated/transforms.h>
#include <ct/models/DoubleInvertedPendulum/generated/jacobians.h>
#include <ct/models/DoubleInvertedPendulum/generated/jsim.h>
#include <ct/models/DoubleInvertedPendulum/generated/forward_dynamics.h>
#include <ct/models/DoubleInvertedPendulum/generated/inverse_dynamics.h>
namespace ip = iit::ct_InvertedPendulum;
namespace dip = iit::ct_DoubleInvertedPendulum;
typedef iit::rbd::DoubleTrait T;
typedef iit::rbd::tpl::InertiaMatrixDense<double> Inertia;
void kinIP()
{
    ip::tpl::HomogeneousTransforms<T> ht;
    ip::tpl::MotionTransforms<T> mt;
    ip::tpl::ForceTransforms<T> ft;
    ip::tpl::Jacobians<T> J;
    Angles<ip::JointState> a(1);
    XFORM(B1, ht, mt, ft, a.q, fr_InvertedPendulumBase_X_fr_Link1);
    XFORM(Be, ht, mt, ft, a.q, fr_InvertedPendulumBase_X_fr_ee);
    XFORM(Bj, ht, mt, ft, a.q, fr_InvertedPendulumBase_X_fr_Joint1);
    XFORM(i1, ht, mt, ft, a.q, fr_Link1_X_fr_InvertedPendulumBase);
    XFORM(ie, ht, mt, ft, a.q, fr_ee_X_fr_InvertedPendulumBase);
    inversePair(B1, i1, "ip.link1");
    inversePair(Be, ie, "ip.ee");
    jacobian(J.fr_InvertedPendulumBase_J_fr_Link1(a.q), B1, a, {0}, "ip.J.link1");
    jacobian(J.fr_InvertedPendulumBase_J_fr_ee(a.q), Be, a, {0}, "ip.J.ee");
}
void kinDIP()
{
    dip::tpl::HomogeneousTransforms<T> ht;
    dip::tpl::MotionTransforms<T> mt;
    dip::tpl::ForceTransforms<T> ft;
    dip::tpl::Jacobians<T> J;
    Angles<dip::JointState> a(2);
    XFORM(B1, ht, mt, ft, a.q, fr_DoubleInvertedPendulumBase_X_fr_Link1);
    XFORM(B2, ht, mt, ft, a.q, fr_DoubleInvertedPendulumBase_X_fr_Link2);
    XFORM(Be, ht, mt, ft, a.q, fr_DoubleInvertedPendulumBase_X_fr_ee);
    XFORM(Bj1, ht, mt, ft, a.q, fr_DoubleInvertedPendulumBase_X_fr_Joint1);
    XFORM(Bj2, ht, mt, ft, a.q, fr_DoubleInvertedPendulumBase_X_fr_Joint2);
    XFORM(i1, ht, mt, ft, a.q, fr_Link1_X_fr_DoubleInvertedPendulumBase);
    XFORM(i2, ht, mt, ft, a.q, fr_Link2_X_fr_DoubleInvertedPendulumBase);
    XFORM(ie, ht, mt, ft, a.q, fr_ee_X_fr_DoubleInvertedPendulumBase);
    XFORM(l12, ht, mt, ft, a.q, fr_Link1_X_fr_Link2);
    XFORM(l21, ht, mt, ft, a.q, fr_Link2_X_fr_Link1);
    inversePair(B1, i1, "dip.link1");
    inversePair(B2, i2, "dip.link2");
    inversePair(Be, ie, "dip.ee");
    inversePair(l12, l21, "dip.link12");
    assertEqM(M4(B1 * l12), B2, "dip.chain");
    jacobian(J.fr_DoubleInvertedPendulumBase_J_fr_Link1(a.q), B1, a, {0}, "dip.J.link1");
    jacobian(J.fr_DoubleInvertedPendulumBase_J_fr_Link2(a.q), B2, a, {0, 1}, "dip.J.link2");
    jacobian(J.fr_DoubleInvertedPendulumBase_J_fr_ee(a.q), Be, a, {0, 1}, "dip.J.ee");
}
static void symInertia(const Inertia& I, const std::string& n)
{
    const_cast<Inertia&>(I).fill(symPos(n + "m"), symMat<3>(n + "c"), symSym<3>(n + "I"));
}
// motion equation: the spatial Newton-Euler law of every link, composed from the homogeneous transforms only
void dynIP(bool constant)
{
    ip::tpl::HomogeneousTransforms<T> ht;
    ip::tpl::MotionTransforms<T> mt;
    ip::tpl::ForceTransforms<T> ft;
    ip::dyn::tpl::InertiaProperties<T> in;
    if (!constant)
        symInertia(in.getTensor_Link1(), "L");
    ip::dyn::tpl::InverseDynamics<T> id(in, mt);
    ip::dyn::tpl::ForwardDynamics<T> fd(in, mt);
    ip::dyn::tpl::JSIM<T> M(in, ft);
    Angles<ip::JointState> a(1);
    ip::JointState qd, qdd, tau, c, g;
    qd(0) = symReal("qd");
    qdd(0) = symReal("qdd");
    V6 w = symMat<6>("w");
    ip::LinkDataMap<V6> fe(V6::Zero());
    fe[ip::LINK1] = w;
    id.id(tau, a.q, qd, qdd, fe);
    id.C_terms(c, a.q, qd);
    id.G_terms(g, a.q);
    M.update(a.q);
    // joint axis: z of the link frame, gravity along -z of the base
    M6 I = in.getTensor_Link1();
    sym_assume_lt(0, I(2, 2));
    V6 ag = motionOf(ht.fr_Link1_X_fr_InvertedPendulumBase(a.q)).col(5) * 9.81;
    V6 grav = I * ag;
    assertEq(M(0, 0), I(2, 2), "ip.jsim");
    assertEq(g(0), grav(2), "ip.gravity");
    assertEq(c(0), 0, "ip.coriolis");
    assertEq(tau(0), I(2, 2) * qdd(0) + grav(2) - w(2), "ip.id");
    ip::JointState back;
    fd.fd(back, a.q, qd, tau, fe);
    assertEq(back(0), qdd(0), "ip.fd-inverts-id");
}
void dynDIP()
{
    dip::tpl::HomogeneousTransforms<T> ht;
    dip::tpl::MotionTransforms<T> mt;
    dip::tpl::ForceTransforms<T> ft;
    dip::dyn::tpl::InertiaProperties<T> in;
    symInertia(in.getTensor_Link1(), "L");
    symInertia(in.getTensor_Link2(), "K");
    dip::dyn::tpl::InverseDynamics<T> id(in, mt);
    dip::dyn::tpl::JSIM<T> M(in, ft);
    Angles<dip::JointState> a(2);
    dip::JointState qd, qdd, tau, c, g;
    qd = symMat<2>("qd");
    qdd = symMat<2>("qdd");
    V6 w1 = symMat<6>("w"), w2 = symMat<6>("u");
    dip::LinkDataMap<V6> fe(V6::Zero());
    fe[dip::LINK1] = w1;
    fe[dip::LINK2] = w2;
    id.C_terms(c, a.q, qd);
    id.G_terms(g, a.q);
    id.id(tau, a.q, qd, qdd, fe);
    M.update(a.q);
    M6 X1 = motionOf(ht.fr_Link1_X_fr_DoubleInvertedPendulumBase(a.q)), X21 = motionOf(ht.fr_Link2_X_fr_Link1(a.q));
    M6 I1 = in.getTensor_Link1(), I2 = in.getTensor_Link2();
    auto rnea = [&](const dip::JointState& v, const dip::JointState& ac, double grav, bool ext) {
        V6 z = V6::Zero();
        z(2) = 1;
        V6 v1 = z * v(0), v2 = X21 * v1 + z * v(1);
        V6 a1 = X1.col(5) * grav + z * ac(0), a2 = X21 * a1 + z * ac(1) + crm(v2, z) * v(1);
        V6 f2 = I2 * a2 + crf(v2, V6(I2 * v2)), f1 = I1 * a1 + crf(v1, V6(I1 * v1));
        if (ext)
        {
            f1 -= w1;
            f2 -= w2;
        }
        f1 += X21.transpose() * f2;
        return dip::JointState(f1(2), f2(2));
    };
    dip::JointState o(0, 0), e0(1, 0), e1(0, 1);
    assertEqM(g, rnea(o, o, 9.81, false), "dip.gravity");
    assertEqM(c, rnea(qd, o, 0, false), "dip.coriolis");
    assertEqM(tau, rnea(qd, qdd, 9.81, true), "dip.id");
    dip::JointState m0 = rnea(o, e0, 0, false), m1 = rnea(o, e1, 0, false);
    assertEq(M(0, 0), m0(0), "dip.jsim00");
    assertEq(M(1, 0), m0(1), "dip.jsim10");
    assertEq(M(0, 1), m1(0), "dip.jsim01");
    assertEq(M(1, 1), m1(1), "dip.jsim11");
}
// forward dynamics invert inverse dynamics (first on the q-q overload, then on the one reusing the transforms)
void fdDIP()
{
    dip::tpl::MotionTransforms<T> mt, mt2;
    dip::tpl::ForceTransforms<T> ft;
    dip::dyn::tpl::InertiaProperties<T> in;
    symInertia(in.getTensor_Link1(), "L");
    symInertia(in.getTensor_Link2(), "K");
    dip::dyn::tpl::InverseDynamics<T> id(in, mt);
    dip::dyn::tpl::ForwardDynamics<T> fd(in, mt2);
    dip::dyn::tpl::JSIM<T> M(in, ft);
    Angles<dip::JointState> a(2);
    dip::JointState qd = symMat<2>("qd"), tau = symMat<2>("tau"), qdd, back;
    dip::LinkDataMap<V6> fe(V6::Zero());
    fe[dip::LINK1] = symMat<6>("w");
    fe[dip::LINK2] = symMat<6>("u");
    M.update(a.q);
    sym_assume_lt(0, M(1, 1));
    sym_assume_lt(0, M(0, 0) * M(1, 1) - M(0, 1) * M(1, 0));
    fd.fd(qdd, a.q, qd, tau, fe);
    id.id(back, a.q, qd, qdd, fe);
    assertEqM(back, tau, "dip.id-inverts-fd");
}
void jsimDIP()
{
    dip::tpl::ForceTransforms<T> ft;
    dip::dyn::tpl::InertiaProperties<T> in;
    dip::dyn::tpl::JSIM<T> M(in, ft);
    M(0, 0) = symPos("m00");
    M(1, 1) = symPos("m11");
    M(0, 1) = M(1, 0) = symReal("m01");
    sym_assume_lt(M(0, 1) * M(0, 1), M(0, 0) * M(1, 1));
    M.computeL();
    Eigen::Matrix2d L = M.getL();
    assertEqM(Eigen::Matrix2d(L.transpose() * L), Eigen::Matrix2d(M), "dip.LtL");
    assertEq(L(0, 1), 0, "dip.L-lower");
    M.computeInverse();
    assertEqM(Eigen::Matrix2d(M.getInverse() * M), Eigen::Matrix2d(Eigen::Matrix2d::Identity()), "dip.jsim-inverse");
}
void sym_main()
{
    switch (symChoice("case", 7))
    {
        case 0: kinIP(); break;
        case 1: kinDIP(); break;
        case 2: dynIP(false); break;
        case 3: dynIP(true); break;
        case 4: dynDIP(); break;
        case 5: fdDIP(); break;
        case 6: jsimDIP(); break;
    }
}
