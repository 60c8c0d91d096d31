// BOUNDS: floating base with two links; every joint angle other than pi, base velocity, joint velocity, base and joint acceleration, gravity vector, external wrench, link mass, centre of mass and inertia tensor symbolic; forward dynamics over every solution of the 6x6 base equation (linear solver replaced by its contract)
// SYM: budget=250 qt=60
#define EIGEN_NO_DEBUG
#include "kcommon.h"
#include <iit/rbd/traits/DoubleTrait.h>
static V6 baseSolution;
static M6 baseA;
static V6 baseB;
namespace iit {
namespace rbd {
template <>
inline Eigen::Matrix<double, 6, 1> DoubleTrait::solve<6, 6>(const Eigen::Matrix<double, 6, 6>& A, const Eigen::Matrix<double, 6, 1>& b)
{
    baseA = A;
    baseB = b;
    return baseSolution;
}
}
}
#include <ct/models/QuadrotorWithLoad/generated/transforms.h>
#include <ct/models/QuadrotorWithLoad/generated/jacobians.h>
#include <ct/models/QuadrotorWithLoad/generated/jsim.h>
#include <ct/models/QuadrotorWithLoad/generated/forward_dynamics.h>
#include <ct/models/QuadrotorWithLoad/generated/inverse_dynamics.h>
namespace ql = iit::ct_quadrotor;
typedef iit::rbd::DoubleTrait T;
typedef iit::rbd::tpl::InertiaMatrixDense<double> Inertia;
void kin()
{
    ql::tpl::HomogeneousTransforms<T> ht;
    ql::tpl::MotionTransforms<T> mt;
    ql::tpl::ForceTransforms<T> ft;
    ql::tpl::Jacobians<T> J;
    Angles<ql::JointState> a(2);
    XFORM(b1, ht, mt, ft, a.q, fr_body_X_fr_link1);
    XFORM(b2, ht, mt, ft, a.q, fr_body_X_fr_link2);
    XFORM(be, ht, mt, ft, a.q, fr_body_X_fr_ee);
    XFORM(bA, ht, mt, ft, a.q, fr_body_X_fr_jA);
    XFORM(bB, ht, mt, ft, a.q, fr_body_X_fr_jB);
    XFORM(bc0, ht, mt, ft, a.q, fr_body_X_fr_com0);
    XFORM(bc1, ht, mt, ft, a.q, fr_body_X_fr_com1);
    XFORM(i1, ht, mt, ft, a.q, fr_link1_X_fr_body);
    XFORM(i2, ht, mt, ft, a.q, fr_link2_X_fr_body);
    XFORM(ie, ht, mt, ft, a.q, fr_ee_X_fr_body);
    XFORM(ic0, ht, mt, ft, a.q, fr_com0_X_fr_body);
    XFORM(ic1, ht, mt, ft, a.q, fr_com1_X_fr_body);
    XFORM(l12, ht, mt, ft, a.q, fr_link1_X_fr_link2);
    XFORM(l21, ht, mt, ft, a.q, fr_link2_X_fr_link1);
    inversePair(b1, i1, "link1");
    inversePair(b2, i2, "link2");
    inversePair(be, ie, "ee");
    inversePair(bc0, ic0, "com0");
    inversePair(bc1, ic1, "com1");
    inversePair(l12, l21, "link12");
    assertEqM(M4(b1 * l12), b2, "chain");
    jacobian(J.fr_body_J_fr_ee(a.q), be, a, {0, 1}, "J.ee");
}
static void symInertia(const Inertia& I, const std::string& n)
{
    const_cast<Inertia&>(I).fill(symPos(n + "m"), symMat<3>(n + "c"), symSym<3>(n + "I"));
}
struct Setup
{
    ql::tpl::HomogeneousTransforms<T> ht;
    ql::tpl::MotionTransforms<T> mt;
    ql::tpl::ForceTransforms<T> ft;
    ql::dyn::tpl::InertiaProperties<T> in;
    Angles<ql::JointState> a;
    Tree tree;
    Setup() : a(2)
    {
        symInertia(in.getTensor_body(), "B");
        symInertia(in.getTensor_link1(), "L");
        symInertia(in.getTensor_link2(), "K");
        M6 o = M6::Identity();
        tree.l.push_back({-1, o, M6(in.getTensor_body())});
        tree.l.push_back({0, motionOf(ht.fr_link1_X_fr_body(a.q)), M6(in.getTensor_link1())});
        tree.l.push_back({1, motionOf(ht.fr_link2_X_fr_link1(a.q)), M6(in.getTensor_link2())});
    }
};
void dyn()
{
    Setup s;
    ql::dyn::tpl::InverseDynamics<T> id(s.in, s.mt);
    V6 v = symMat<6>("v"), g = symMat<6>("g"), acc = symMat<6>("a"), w, r;
    std::vector<V6> fe = {V6(symMat<6>("e")), V6(symMat<6>("f")), V6(symMat<6>("h"))};
    ql::LinkDataMap<V6> fx(V6::Zero());
    fx[ql::BODY] = fe[0];
    fx[ql::LINK1] = fe[1];
    fx[ql::LINK2] = fe[2];
    ql::JointState qd = symMat<2>("qd"), qdd = symMat<2>("qdd"), tau;
    std::vector<double> o(2, 0.0), ref;
    id.G_terms_fully_actuated(w, tau, g, s.a.q);
    ref = s.tree.rnea(V6::Zero(), V6(-g), o, o, {}, r);
    assertEqM(w, r, "gravity.base");
    for (int i = 0; i < 2; i++)
        assertEq(tau(i), ref[i], "gravity.joint");
    id.C_terms_fully_actuated(w, tau, v, s.a.q, qd);
    ref = s.tree.rnea(v, V6::Zero(), stdv(qd), o, {}, r);
    assertEqM(w, r, "coriolis.base");
    for (int i = 0; i < 2; i++)
        assertEq(tau(i), ref[i], "coriolis.joint");
    id.id_fully_actuated(w, tau, g, v, acc, s.a.q, qd, qdd, fx);
    ref = s.tree.rnea(v, V6(acc - g), stdv(qd), stdv(qdd), fe, r);
    assertEqM(w, r, "id.base");
    for (int i = 0; i < 2; i++)
        assertEq(tau(i), ref[i], "id.joint");
}
void jsim()
{
    Setup s;
    ql::dyn::tpl::JSIM<T> M(s.in, s.ft);
    M.update(s.a.q);
    std::vector<double> o(2, 0.0);
    for (int c = 0; c < 8; c++)
    {
        V6 a = V6::Zero(), w;
        std::vector<double> qdd = o;
        if (c < 6)
            a(c) = 1;
        else
            qdd[c - 6] = 1;
        std::vector<double> t = s.tree.rnea(V6::Zero(), a, o, qdd, {}, w);
        for (int i = 0; i < 8; i++)
            assertEq(M(i, c), i < 6 ? w(i) : t[i - 6], "jsim" + S(i) + S(c));
    }
    assertEqM(M6(M.getWholeBodyInertia()), M6(M.block<6, 6>(0, 0)), "whole-body");
    Eigen::Matrix<double, 6, 2> F = M.getF();
    Eigen::Matrix<double, 2, 2> H = M.getFixedBaseBlock();
    assertEqM(F, Eigen::Matrix<double, 6, 2>(M.block<6, 2>(0, 6)), "F");
    assertEqM(H, Eigen::Matrix<double, 2, 2>(M.block<2, 2>(6, 6)), "H");
}
// the accelerations returned by the forward dynamics satisfy the equations of motion
void fd()
{
    Setup s;
    ql::tpl::MotionTransforms<T> mt2;
    ql::dyn::tpl::InverseDynamics<T> id(s.in, s.mt);
    ql::dyn::tpl::ForwardDynamics<T> fdyn(s.in, mt2);
    V6 v = symMat<6>("v"), g = symMat<6>("g"), acc, w;
    ql::LinkDataMap<V6> fx(V6::Zero());
    fx[ql::LINK1] = symMat<6>("f");
    fx[ql::LINK2] = symMat<6>("h");
    ql::JointState qd = symMat<2>("qd"), tau = symMat<2>("tau"), qdd, back;
    V6 x = symMat<6>("x");
    baseSolution = -x;
    fdyn.fd(qdd, acc, v, g, s.a.q, qd, tau, fx);
    // the wrench on the base for which -x solves baseA * y = baseB
    fx[ql::BODY] = baseA * x + baseB;
    fdyn.fd(qdd, acc, v, g, s.a.q, qd, tau, fx);
    assertEqM(acc, V6(x + g), "fd.base-acceleration");
    id.id_fully_actuated(w, back, g, v, acc, s.a.q, qd, qdd, fx);
    assertEqM(back, tau, "fd.torque");
    assertEqM(w, V6(V6::Zero()), "fd.base-wrench");
}
// floating base inverse dynamics: with the base acceleration it returns, no base wrench is needed and the torques agree
void idFloat()
{
    ql::tpl::MotionTransforms<T> mt, mt2;
    ql::dyn::tpl::InertiaProperties<T> in;
    ql::dyn::tpl::InverseDynamics<T> id(in, mt), full(in, mt2);
    V6 v = symMat<6>("v"), g = symMat<6>("g"), acc, w;
    ql::LinkDataMap<V6> fx(V6::Zero());
    fx[ql::BODY] = symMat<6>("e");
    fx[ql::LINK1] = symMat<6>("f");
    fx[ql::LINK2] = symMat<6>("h");
    ql::JointState q, qd = symMat<2>("qd"), qdd = symMat<2>("qdd"), tau, back;
    int c = symChoice("q", 2);
    q << (c ? 0.4 : 0.0), (c ? -1.1 : 0.0);
    id.id(tau, acc, g, v, q, qd, qdd, fx);
    full.id_fully_actuated(w, back, g, v, acc, q, qd, qdd, fx);
    assertEqM(back, tau, "id-float.torque", 1e-6);
    assertEqM(w, V6(V6::Zero()), "id-float.base-wrench", 1e-6);
}
void sym_main()
{
    switch (symChoice("case", 5))
    {
        case 0: kin(); break;
        case 1: dyn(); break;
        case 2: jsim(); break;
        case 3: fd(); break;
        case 4: idFloat(); break;
    }
}
