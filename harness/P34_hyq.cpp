// BOUNDS: four legs of three joints; per case one leg has every joint angle other than pi, joint velocity, acceleration, torque, external wrench, link mass, centre of mass and inertia tensor symbolic (the other legs rest in a fixed configuration), base inertia, velocity and acceleration symbolic; forward dynamics: all twelve joint velocities, torques, wrenches and every solution of the 6x6 base equation (linear solver replaced by its contract) symbolic, joint angles concrete (1 configuration quick, 3 thorough)
// SYM: budget=250 qt=60
#define EIGEN_NO_DEBUG
#include "kcommon.h"
#include <iit/rbd/traits/DoubleTrait.h>
static V6 baseSolution;
static M6 baseA;
static V6 baseB;
namespace iit {
namespace rbd {
template <>
inline Eigen::Matrix<double, 6, 1> DoubleTrait::solve<6, 6>(const Eigen::Matrix<double, 6, 6>& A, const Eigen::Matrix<double, 6, 1>& b)
{
    baseA = A;
    baseB = b;
    return baseSolution;
}
}
}
#include <ct/models/HyQ/generated/transforms.h>
#include <ct/models/HyQ/generated/jacobians.h>
#include <ct/models/HyQ/generated/jsim.h>
#include <ct/models/HyQ/generated/forward_dynamics.h>
#include <ct/models/HyQ/generated/inverse_dynamics.h>
namespace hq = iit::HyQ;
typedef iit::rbd::DoubleTrait T;
typedef iit::rbd::tpl::InertiaMatrixDense<double> Inertia;
#define KIN(L)                                                                     \
    {                                                                              \
        XFORM(h, ht, mt, ft, q, fr_trunk_X_fr_##L##_hipassembly);                  \
        XFORM(u, ht, mt, ft, q, fr_trunk_X_fr_##L##_upperleg);                     \
        XFORM(l, ht, mt, ft, q, fr_trunk_X_fr_##L##_lowerleg);                     \
        XFORM(f, ht, mt, ft, q, fr_trunk_X_fr_##L##_foot);                         \
        XFORM(hi, ht, mt, ft, q, fr_##L##_hipassembly_X_fr_trunk);                 \
        XFORM(ui, ht, mt, ft, q, fr_##L##_upperleg_X_fr_trunk);                    \
        XFORM(li, ht, mt, ft, q, fr_##L##_lowerleg_X_fr_trunk);                    \
        XFORM(fi, ht, mt, ft, q, fr_##L##_foot_X_fr_trunk);                        \
        XFORM(hc, ht, mt, ft, q, fr_trunk_X_##L##_hipassemblyCOM);                 \
        XFORM(uc, ht, mt, ft, q, fr_trunk_X_##L##_upperlegCOM);                    \
        XFORM(lc, ht, mt, ft, q, fr_trunk_X_##L##_lowerlegCOM);                    \
        XFORM(j0, ht, mt, ft, q, fr_trunk_X_fr_##L##_HAA);                         \
        XFORM(j1, ht, mt, ft, q, fr_trunk_X_fr_##L##_HFE);                         \
        XFORM(j2, ht, mt, ft, q, fr_trunk_X_fr_##L##_KFE);                         \
        XFORM(hu, ht, mt, ft, q, fr_##L##_hipassembly_X_fr_##L##_upperleg);        \
        XFORM(uh, ht, mt, ft, q, fr_##L##_upperleg_X_fr_##L##_hipassembly);        \
        XFORM(ul, ht, mt, ft, q, fr_##L##_upperleg_X_fr_##L##_lowerleg);           \
        XFORM(lu, ht, mt, ft, q, fr_##L##_lowerleg_X_fr_##L##_upperleg);           \
        XFORM(fl, ht, mt, ft, q, fr_##L##_foot_X_fr_##L##_lowerleg);               \
        inversePair(h, hi, #L ".hip");                                             \
        inversePair(u, ui, #L ".upper");                                           \
        inversePair(l, li, #L ".lower");                                           \
        inversePair(f, fi, #L ".foot");                                            \
        inversePair(hu, uh, #L ".hip-upper");                                      \
        inversePair(ul, lu, #L ".upper-lower");                                    \
        assertEqM(M4(h * hu), u, #L ".chain-upper");                               \
        assertEqM(M4(u * ul), l, #L ".chain-lower");                               \
        assertEqM(M4(f * fl), l, #L ".chain-foot");                                \
        jacobian(J.fr_trunk_J_##L##_hipassemblyCOM(q), hc, a, {0}, #L ".J.hip");   \
        jacobian(J.fr_trunk_J_##L##_upperlegCOM(q), uc, a, {0, 1}, #L ".J.upper"); \
        jacobian(J.fr_trunk_J_##L##_lowerlegCOM(q), lc, a, {0, 1, 2}, #L ".J.lower"); \
        jacobian(J.fr_trunk_J_fr_##L##_foot(q), f, a, {0, 1, 2}, #L ".J.foot");    \
    }
struct Leg : Angles<Eigen::Vector3d>
{
    hq::JointState q;
    Leg(int leg) : Angles<Eigen::Vector3d>(3)
    {
        for (int i = 0; i < 12; i++)
            q(i) = i / 3 == leg ? Angles<Eigen::Vector3d>::q(i % 3) : 0.0;
    }
};
void kin(int leg)
{
    hq::tpl::HomogeneousTransforms<T> ht;
    hq::tpl::MotionTransforms<T> mt;
    hq::tpl::ForceTransforms<T> ft;
    hq::tpl::Jacobians<T> J;
    Leg a(leg);
    const hq::JointState& q = a.q;
    switch (leg)
    {
        case 0: KIN(LF); break;
        case 1: KIN(RF); break;
        case 2: KIN(LH); break;
        case 3: KIN(RH); break;
    }
}
static void symInertia(const Inertia& I, const std::string& n)
{
    const_cast<Inertia&>(I).fill(symPos(n + "m"), symMat<3>(n + "c"), symSym<3>(n + "I"));
}
struct Setup
{
    hq::tpl::HomogeneousTransforms<T> ht;
    hq::tpl::MotionTransforms<T> mt;
    hq::tpl::ForceTransforms<T> ft;
    hq::dyn::tpl::InertiaProperties<T> in;
    Leg a;
    Tree tree;
    Setup(int leg) : a(leg)
    {
#define LEG(k, L)                                                                                              \
    if (leg == k)                                                                                              \
    {                                                                                                          \
        symInertia(in.getTensor_##L##_hipassembly(), "L");                                                     \
        symInertia(in.getTensor_##L##_upperleg(), "K");                                                        \
        symInertia(in.getTensor_##L##_lowerleg(), "H");                                                        \
    }                                                                                                          \
    else                                                                                                       \
    {                                                                                                          \
        rest(in.getTensor_##L##_hipassembly());                                                                \
        rest(in.getTensor_##L##_upperleg());                                                                   \
        rest(in.getTensor_##L##_lowerleg());                                                                   \
    }                                                                                                          \
    tree.l.push_back({0, motionOf(ht.fr_##L##_hipassembly_X_fr_trunk(a.q)), M6(in.getTensor_##L##_hipassembly())}); \
    tree.l.push_back({3 * k + 1, motionOf(ht.fr_##L##_upperleg_X_fr_##L##_hipassembly(a.q)), M6(in.getTensor_##L##_upperleg())}); \
    tree.l.push_back({3 * k + 2, motionOf(ht.fr_##L##_lowerleg_X_fr_##L##_upperleg(a.q)), M6(in.getTensor_##L##_lowerleg())});
        symInertia(in.getTensor_trunk(), "B");
        M6 o = M6::Identity();
        tree.l.push_back({-1, o, M6(in.getTensor_trunk())});
        LEG(0, LF) LEG(1, RF) LEG(2, LH) LEG(3, RH)
    }
    static void rest(const Inertia& I)
    {
        const_cast<Inertia&>(I).fill(2.0, V3(0.5, 0.25, -0.125), M3(V3(1.0, 2.0, 1.5).asDiagonal()));
    }
};
static hq::JointState one(int leg, const std::string& n)
{
    hq::JointState x = hq::JointState::Zero();
    for (int i = 0; i < 3; i++)
        x(3 * leg + i) = symReal(n + ::S(i));
    return x;
}
void dyn(int leg)
{
    Setup s(leg);
    hq::dyn::tpl::InverseDynamics<T> id(s.in, s.mt);
    V6 v = symMat<6>("v"), g = symMat<6>("g"), acc = symMat<6>("a"), w, r;
    std::vector<V6> fe(13, V6(V6::Zero()));
    hq::LinkDataMap<V6> fx(V6::Zero());
    fe[0] = symMat<6>("e");
    for (int i = 1; i < 4; i++)
        fe[3 * leg + i] = symMat<6>("f" + ::S(i));
    for (int i = 0; i < 13; i++)
        fx[hq::orderedLinkIDs[i]] = fe[i];
    hq::JointState qd = one(leg, "qd"), qdd = one(leg, "qdd"), tau;
    std::vector<double> o(12, 0.0), ref;
    id.G_terms_fully_actuated(w, tau, g, s.a.q);
    ref = s.tree.rnea(V6::Zero(), V6(-g), o, o, {}, r);
    assertEqM(w, r, "gravity.base");
    for (int i = 0; i < 12; i++)
        assertEq(tau(i), ref[i], "gravity.joint" + ::S(i));
    id.C_terms_fully_actuated(w, tau, v, s.a.q, qd);
    ref = s.tree.rnea(v, V6::Zero(), stdv(qd), o, {}, r);
    assertEqM(w, r, "coriolis.base");
    for (int i = 0; i < 12; i++)
        assertEq(tau(i), ref[i], "coriolis.joint" + ::S(i));
    id.id_fully_actuated(w, tau, g, v, acc, s.a.q, qd, qdd, fx);
    ref = s.tree.rnea(v, V6(acc - g), stdv(qd), stdv(qdd), fe, r);
    assertEqM(w, r, "id.base");
    for (int i = 0; i < 12; i++)
        assertEq(tau(i), ref[i], "id.joint" + ::S(i));
}
void jsim(int leg)
{
    Setup s(leg);
    hq::dyn::tpl::JSIM<T> M(s.in, s.ft);
    M.update(s.a.q);
    std::vector<double> o(12, 0.0);
    for (int c = 0; c < 18; c++)
    {
        V6 a = V6::Zero(), w;
        std::vector<double> qdd = o;
        if (c < 6)
            a(c) = 1;
        else
            qdd[c - 6] = 1;
        std::vector<double> t = s.tree.rnea(V6::Zero(), a, o, qdd, {}, w);
        for (int i = 0; i < 18; i++)
            assertEq(M(i, c), i < 6 ? w(i) : t[i - 6], "jsim" + ::S(i) + "," + ::S(c));
    }
    assertEqM(M6(M.getWholeBodyInertia()), M6(M.block<6, 6>(0, 0)), "whole-body");
}
void fd()
{
    hq::tpl::MotionTransforms<T> mt, mt2;
    hq::dyn::tpl::InertiaProperties<T> in;
    hq::dyn::tpl::InverseDynamics<T> id(in, mt);
    hq::dyn::tpl::ForwardDynamics<T> fdyn(in, mt2);
    V6 v = symMat<6>("v"), g = symMat<6>("g"), acc, w;
    hq::LinkDataMap<V6> fx(V6::Zero());
    for (int i = 1; i < 13; i++)
        fx[hq::orderedLinkIDs[i]] = symMat<6>("f" + ::S(i));
    hq::JointState q, qd = symMat<12>("qd"), tau = symMat<12>("tau"), qdd, back;
    int c = symChoice("q", THOROUGH ? 3 : 1);
    for (int i = 0; i < 12; i++)
        q(i) = 0.3 * (i % 5) - 0.55 + 0.07 * i + 0.9 * c;
    V6 x = symMat<6>("x");
    baseSolution = -x;
    fdyn.fd(qdd, acc, v, g, q, qd, tau, fx);
    fx[hq::TRUNK] = baseA * x + baseB;
    fdyn.fd(qdd, acc, v, g, q, qd, tau, fx);
    assertEqM(acc, V6(x + g), "fd.base-acceleration");
    id.id_fully_actuated(w, back, g, v, acc, q, qd, qdd, fx);
    assertEqM(back, tau, "fd.torque", 1e-5);
    assertEqM(w, V6(V6::Zero()), "fd.base-wrench", 1e-5);
}
void sym_main()
{
    int k = symChoice("case", 4);
    if (k == 3)
        return fd();
    int leg = symChoice("leg", 4);
    switch (k)
    {
        case 0: kin(leg); break;
        case 1: dyn(leg); break;
        case 2: jsim(leg); break;
    }
}
