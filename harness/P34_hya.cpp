// BOUNDS: six joint arm; kinematics: every joint angle other than pi; dynamics: joint velocities, accelerations, torques and external wrenches symbolic at concrete joint angles (1 configuration quick, 3 thorough)
// SYM: budget=250 qt=60
#define EIGEN_NO_DEBUG
#include "kcommon.h"
#include <ct/models/HyA/generated/transforms.h>
#include <ct/models/HyA/generated/jacobians.h>
#include <ct/models/HyA/generated/jsim.h>
#include <ct/models/HyA/generated/forward_dynamics.h>
#include <ct/models/HyA/generated/inverse_dynamics.h>
namespace ha = iit::ct_HyA;
typedef iit::rbd::DoubleTrait T;
struct Kin
{
    ha::tpl::HomogeneousTransforms<T> ht;
    ha::tpl::MotionTransforms<T> mt;
    ha::tpl::ForceTransforms<T> ft;
    ha::tpl::Jacobians<T> J;
    Angles<ha::JointState> a;
    Kin() : a(6) {}
};
static void kin0(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_Elbow_FE_X_fr_Humerus_R);
    XFORM(h1, k.ht, k.mt, k.ft, k.a.q, fr_Elbow_FE_X_fr_HyABase);
    XFORM(h2, k.ht, k.mt, k.ft, k.a.q, fr_Elbow_FE_X_fr_Wrist_FE);
    XFORM(h3, k.ht, k.mt, k.ft, k.a.q, fr_Elbow_FE_X_fr_Wrist_R);
    XFORM(h4, k.ht, k.mt, k.ft, k.a.q, fr_Elbow_FE_X_fr_ee);
    XFORM(h5, k.ht, k.mt, k.ft, k.a.q, fr_Humerus_R_X_fr_Elbow_FE);
    XFORM(h6, k.ht, k.mt, k.ft, k.a.q, fr_Humerus_R_X_fr_HyABase);
}
static void kin1(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_Humerus_R_X_fr_Shoulder_FE);
    XFORM(h1, k.ht, k.mt, k.ft, k.a.q, fr_Humerus_R_X_fr_Wrist_FE);
    XFORM(h2, k.ht, k.mt, k.ft, k.a.q, fr_Humerus_R_X_fr_ee);
    XFORM(h3, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_EFE);
    XFORM(h4, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Elbow_FE);
    XFORM(h5, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Elbow_FE_COM);
    XFORM(h6, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Elbow_FE_CTR);
}
static void kin2(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_HR);
    XFORM(h1, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Humerus_R);
    XFORM(h2, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Humerus_R_COM);
    XFORM(h3, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Humerus_R_CTR);
    XFORM(h4, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_SAA);
    XFORM(h5, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_SFE);
    XFORM(h6, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Shoulder_AA);
}
static void kin3(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Shoulder_AA_COM);
    XFORM(h1, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Shoulder_AA_CTR);
    XFORM(h2, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Shoulder_FE);
    XFORM(h3, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Shoulder_FE_COM);
    XFORM(h4, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Shoulder_FE_CTR);
    XFORM(h5, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_WFE);
    XFORM(h6, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_WR);
}
static void kin4(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Wrist_FE);
    XFORM(h1, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Wrist_FE_COM);
    XFORM(h2, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Wrist_R);
    XFORM(h3, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Wrist_R_COM);
    XFORM(h4, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_Wrist_R_CTR);
    XFORM(h5, k.ht, k.mt, k.ft, k.a.q, fr_HyABase_X_fr_ee);
    XFORM(h6, k.ht, k.mt, k.ft, k.a.q, fr_Shoulder_AA_X_fr_HyABase);
}
static void kin5(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_Shoulder_AA_X_fr_Shoulder_FE);
    XFORM(h1, k.ht, k.mt, k.ft, k.a.q, fr_Shoulder_FE_X_fr_Humerus_R);
    XFORM(h2, k.ht, k.mt, k.ft, k.a.q, fr_Shoulder_FE_X_fr_HyABase);
    XFORM(h3, k.ht, k.mt, k.ft, k.a.q, fr_Shoulder_FE_X_fr_Shoulder_AA);
    XFORM(h4, k.ht, k.mt, k.ft, k.a.q, fr_Shoulder_FE_X_fr_Wrist_FE);
    XFORM(h5, k.ht, k.mt, k.ft, k.a.q, fr_Shoulder_FE_X_fr_ee);
    XFORM(h6, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_FE_X_fr_HyABase);
}
static void kin6(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_FE_X_fr_Shoulder_FE);
    XFORM(h1, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_FE_X_fr_Wrist_R);
    XFORM(h2, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_FE_X_fr_ee);
    XFORM(h3, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_R_X_fr_Elbow_FE);
    XFORM(h4, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_R_X_fr_HyABase);
    XFORM(h5, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_R_X_fr_Wrist_FE);
    XFORM(h6, k.ht, k.mt, k.ft, k.a.q, fr_Wrist_R_X_fr_ee);
}
static void kin7(Kin& k)
{
    XFORM(h0, k.ht, k.mt, k.ft, k.a.q, fr_ee_X_fr_HyABase);
}
static void inverses(Kin& k)
{
    inversePair(M4(k.ht.fr_Elbow_FE_X_fr_Humerus_R(k.a.q)), M4(k.ht.fr_Humerus_R_X_fr_Elbow_FE(k.a.q)), "fr_Elbow_FE_X_fr_Humerus_R");
    inversePair(M4(k.ht.fr_Elbow_FE_X_fr_HyABase(k.a.q)), M4(k.ht.fr_HyABase_X_fr_Elbow_FE(k.a.q)), "fr_Elbow_FE_X_fr_HyABase");
    inversePair(M4(k.ht.fr_Elbow_FE_X_fr_Wrist_R(k.a.q)), M4(k.ht.fr_Wrist_R_X_fr_Elbow_FE(k.a.q)), "fr_Elbow_FE_X_fr_Wrist_R");
    inversePair(M4(k.ht.fr_Humerus_R_X_fr_HyABase(k.a.q)), M4(k.ht.fr_HyABase_X_fr_Humerus_R(k.a.q)), "fr_Humerus_R_X_fr_HyABase");
    inversePair(M4(k.ht.fr_Humerus_R_X_fr_Shoulder_FE(k.a.q)), M4(k.ht.fr_Shoulder_FE_X_fr_Humerus_R(k.a.q)), "fr_Humerus_R_X_fr_Shoulder_FE");
    inversePair(M4(k.ht.fr_HyABase_X_fr_Shoulder_AA(k.a.q)), M4(k.ht.fr_Shoulder_AA_X_fr_HyABase(k.a.q)), "fr_HyABase_X_fr_Shoulder_AA");
    inversePair(M4(k.ht.fr_HyABase_X_fr_Shoulder_FE(k.a.q)), M4(k.ht.fr_Shoulder_FE_X_fr_HyABase(k.a.q)), "fr_HyABase_X_fr_Shoulder_FE");
    inversePair(M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)), M4(k.ht.fr_Wrist_FE_X_fr_HyABase(k.a.q)), "fr_HyABase_X_fr_Wrist_FE");
    inversePair(M4(k.ht.fr_HyABase_X_fr_Wrist_R(k.a.q)), M4(k.ht.fr_Wrist_R_X_fr_HyABase(k.a.q)), "fr_HyABase_X_fr_Wrist_R");
    inversePair(M4(k.ht.fr_HyABase_X_fr_ee(k.a.q)), M4(k.ht.fr_ee_X_fr_HyABase(k.a.q)), "fr_HyABase_X_fr_ee");
    inversePair(M4(k.ht.fr_Shoulder_AA_X_fr_Shoulder_FE(k.a.q)), M4(k.ht.fr_Shoulder_FE_X_fr_Shoulder_AA(k.a.q)), "fr_Shoulder_AA_X_fr_Shoulder_FE");
    inversePair(M4(k.ht.fr_Shoulder_FE_X_fr_Wrist_FE(k.a.q)), M4(k.ht.fr_Wrist_FE_X_fr_Shoulder_FE(k.a.q)), "fr_Shoulder_FE_X_fr_Wrist_FE");
    inversePair(M4(k.ht.fr_Wrist_FE_X_fr_Wrist_R(k.a.q)), M4(k.ht.fr_Wrist_R_X_fr_Wrist_FE(k.a.q)), "fr_Wrist_FE_X_fr_Wrist_R");
}
static void chain(Kin& k)
{
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Shoulder_AA(k.a.q)) * M4(k.ht.fr_Shoulder_AA_X_fr_Shoulder_FE(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Shoulder_FE(k.a.q)), "chain.Shoulder_FE");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Shoulder_FE(k.a.q)) * M4(k.ht.fr_Shoulder_FE_X_fr_Humerus_R(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Humerus_R(k.a.q)), "chain.Humerus_R");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Humerus_R(k.a.q)) * M4(k.ht.fr_Humerus_R_X_fr_Elbow_FE(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Elbow_FE(k.a.q)), "chain.Elbow_FE");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Elbow_FE(k.a.q)) * M4(k.ht.fr_Elbow_FE_X_fr_Wrist_R(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Wrist_R(k.a.q)), "chain.Wrist_R");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Wrist_R(k.a.q)) * M4(k.ht.fr_Wrist_R_X_fr_Wrist_FE(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)), "chain.Wrist_FE");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)) * M4(k.ht.fr_Wrist_FE_X_fr_ee(k.a.q))), M4(k.ht.fr_HyABase_X_fr_ee(k.a.q)), "chain.ee");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Shoulder_FE(k.a.q)) * M4(k.ht.fr_Shoulder_FE_X_fr_Wrist_FE(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)), "chain.fr_Shoulder_FE_X_fr_Wrist_FE");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Shoulder_FE(k.a.q)) * M4(k.ht.fr_Shoulder_FE_X_fr_ee(k.a.q))), M4(k.ht.fr_HyABase_X_fr_ee(k.a.q)), "chain.fr_Shoulder_FE_X_fr_ee");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Humerus_R(k.a.q)) * M4(k.ht.fr_Humerus_R_X_fr_Wrist_FE(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)), "chain.fr_Humerus_R_X_fr_Wrist_FE");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Humerus_R(k.a.q)) * M4(k.ht.fr_Humerus_R_X_fr_ee(k.a.q))), M4(k.ht.fr_HyABase_X_fr_ee(k.a.q)), "chain.fr_Humerus_R_X_fr_ee");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Elbow_FE(k.a.q)) * M4(k.ht.fr_Elbow_FE_X_fr_Wrist_FE(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)), "chain.fr_Elbow_FE_X_fr_Wrist_FE");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Elbow_FE(k.a.q)) * M4(k.ht.fr_Elbow_FE_X_fr_ee(k.a.q))), M4(k.ht.fr_HyABase_X_fr_ee(k.a.q)), "chain.fr_Elbow_FE_X_fr_ee");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Wrist_R(k.a.q)) * M4(k.ht.fr_Wrist_R_X_fr_ee(k.a.q))), M4(k.ht.fr_HyABase_X_fr_ee(k.a.q)), "chain.fr_Wrist_R_X_fr_ee");
    assertEqM(M4(M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)) * M4(k.ht.fr_Wrist_FE_X_fr_Shoulder_FE(k.a.q))), M4(k.ht.fr_HyABase_X_fr_Shoulder_FE(k.a.q)), "chain.fr_Wrist_FE_X_fr_Shoulder_FE");
}
static void jac0(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_ee(k.a.q), M4(k.ht.fr_HyABase_X_fr_ee(k.a.q)), k.a, {0, 1, 2, 3, 4, 5}, "fr_HyABase_J_fr_ee"); }
static void jac1(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Wrist_FE_COM(k.a.q), M4(k.ht.fr_HyABase_X_fr_Wrist_FE_COM(k.a.q)), k.a, {0, 1, 2, 3, 4, 5}, "fr_HyABase_J_fr_Wrist_FE_COM"); }
static void jac2(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Wrist_FE(k.a.q), M4(k.ht.fr_HyABase_X_fr_Wrist_FE(k.a.q)), k.a, {0, 1, 2, 3, 4, 5}, "fr_HyABase_J_fr_Wrist_FE"); }
static void jac3(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Wrist_R_COM(k.a.q), M4(k.ht.fr_HyABase_X_fr_Wrist_R_COM(k.a.q)), k.a, {0, 1, 2, 3, 4}, "fr_HyABase_J_fr_Wrist_R_COM"); }
static void jac4(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Wrist_R(k.a.q), M4(k.ht.fr_HyABase_X_fr_Wrist_R(k.a.q)), k.a, {0, 1, 2, 3, 4}, "fr_HyABase_J_fr_Wrist_R"); }
static void jac5(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Wrist_R_CTR(k.a.q), M4(k.ht.fr_HyABase_X_fr_Wrist_R_CTR(k.a.q)), k.a, {0, 1, 2, 3, 4}, "fr_HyABase_J_fr_Wrist_R_CTR"); }
static void jac6(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Elbow_FE_COM(k.a.q), M4(k.ht.fr_HyABase_X_fr_Elbow_FE_COM(k.a.q)), k.a, {0, 1, 2, 3}, "fr_HyABase_J_fr_Elbow_FE_COM"); }
static void jac7(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Elbow_FE(k.a.q), M4(k.ht.fr_HyABase_X_fr_Elbow_FE(k.a.q)), k.a, {0, 1, 2, 3}, "fr_HyABase_J_fr_Elbow_FE"); }
static void jac8(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Elbow_FE_CTR(k.a.q), M4(k.ht.fr_HyABase_X_fr_Elbow_FE_CTR(k.a.q)), k.a, {0, 1, 2, 3}, "fr_HyABase_J_fr_Elbow_FE_CTR"); }
static void jac9(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Humerus_R_COM(k.a.q), M4(k.ht.fr_HyABase_X_fr_Humerus_R_COM(k.a.q)), k.a, {0, 1, 2}, "fr_HyABase_J_fr_Humerus_R_COM"); }
static void jac10(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Humerus_R(k.a.q), M4(k.ht.fr_HyABase_X_fr_Humerus_R(k.a.q)), k.a, {0, 1, 2}, "fr_HyABase_J_fr_Humerus_R"); }
static void jac11(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Humerus_R_CTR(k.a.q), M4(k.ht.fr_HyABase_X_fr_Humerus_R_CTR(k.a.q)), k.a, {0, 1, 2}, "fr_HyABase_J_fr_Humerus_R_CTR"); }
static void jac12(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Shoulder_AA_CTR(k.a.q), M4(k.ht.fr_HyABase_X_fr_Shoulder_AA_CTR(k.a.q)), k.a, {0}, "fr_HyABase_J_fr_Shoulder_AA_CTR"); }
static void jac13(Kin& k) { jacobian(k.J.fr_HyABase_J_fr_Shoulder_FE_CTR(k.a.q), M4(k.ht.fr_HyABase_X_fr_Shoulder_FE_CTR(k.a.q)), k.a, {0, 1}, "fr_HyABase_J_fr_Shoulder_FE_CTR"); }
static void dyn()
{
    ha::tpl::HomogeneousTransforms<T> ht;
    ha::tpl::MotionTransforms<T> mt, mt2;
    ha::tpl::ForceTransforms<T> ft;
    ha::dyn::tpl::InertiaProperties<T> in;
    ha::dyn::tpl::InverseDynamics<T> id(in, mt);
    ha::dyn::tpl::ForwardDynamics<T> fd(in, mt2);
    ha::dyn::tpl::JSIM<T> M(in, ft);
    ha::JointState q, qd = symMat<6>("qd"), qdd = symMat<6>("qdd"), tau, g, c, back;
    int cfg = symChoice("q", THOROUGH ? 3 : 1);
    for (int i = 0; i < 6; i++)
        q(i) = 0.4 * (i % 4) - 0.55 + 0.13 * i + 0.9 * cfg;
    Tree t;
    M6 o = M6::Identity();
    t.l.push_back({-1, o, M6(M6::Zero())});
    t.l.push_back({0, motionOf(M4(ht.fr_Shoulder_AA_X_fr_HyABase(q))), M6(in.getTensor_Shoulder_AA())});
    t.l.push_back({1, motionOf(M4(ht.fr_Shoulder_FE_X_fr_Shoulder_AA(q))), M6(in.getTensor_Shoulder_FE())});
    t.l.push_back({2, motionOf(M4(ht.fr_Humerus_R_X_fr_Shoulder_FE(q))), M6(in.getTensor_Humerus_R())});
    t.l.push_back({3, motionOf(M4(ht.fr_Elbow_FE_X_fr_Humerus_R(q))), M6(in.getTensor_Elbow_FE())});
    t.l.push_back({4, motionOf(M4(ht.fr_Wrist_R_X_fr_Elbow_FE(q))), M6(in.getTensor_Wrist_R())});
    t.l.push_back({5, motionOf(M4(ht.fr_Wrist_FE_X_fr_Wrist_R(q))), M6(in.getTensor_Wrist_FE())});
    std::vector<V6> fe(7, V6(V6::Zero()));
    ha::LinkDataMap<V6> fx(V6::Zero());
    for (int i = 1; i < 7; i++)
        fx[ha::orderedLinkIDs[i]] = fe[i] = symMat<6>("f" + S(i));
    V6 up = V6::Zero(), w;
    up(5) = 9.81;
    std::vector<double> z(6, 0.0), ref;
    id.G_terms(g, q);
    id.C_terms(c, q, qd);
    id.id(tau, q, qd, qdd, fx);
    ref = t.rnea(V6::Zero(), up, z, z, {}, w);
    for (int i = 0; i < 6; i++)
        assertEq(g(i), ref[i], "gravity" + S(i));
    ref = t.rnea(V6::Zero(), V6::Zero(), stdv(qd), z, {}, w);
    for (int i = 0; i < 6; i++)
        assertEq(c(i), ref[i], "coriolis" + S(i), 1e-5);
    ref = t.rnea(V6::Zero(), up, stdv(qd), stdv(qdd), fe, w);
    for (int i = 0; i < 6; i++)
        assertEq(tau(i), ref[i], "id" + S(i), 1e-5);
    M.update(q);
    ha::JointState lin = ha::JointState::Zero();
    for (int i = 0; i < 6; i++)
        for (int j = 0; j < 6; j++)
            lin(i) += M(i, j) * qdd(j);
    ref = t.rnea(V6::Zero(), V6::Zero(), z, stdv(qdd), {}, w);
    for (int i = 0; i < 6; i++)
        assertEq(lin(i), ref[i], "jsim" + S(i), 1e-5);
    ha::JointState tq = symMat<6>("tau");
    fd.fd(back, q, qd, tq, fx);
    id.id(tau, q, qd, back, fx);
    assertEqM(tau, tq, "id-inverts-fd", 1e-5);
    M.computeL();
    M.computeInverse();
    lin = M.getInverse() * tq;
    assertEqM(ha::JointState(M * lin), tq, "jsim-inverse", 1e-5);
}
void sym_main()
{
    int c = symChoice("case", 25);
    if (c == 24)
        return dyn();
    Kin k;
    switch (c)
    {
        case 0: kin0(k); break;
        case 1: kin1(k); break;
        case 2: kin2(k); break;
        case 3: kin3(k); break;
        case 4: kin4(k); break;
        case 5: kin5(k); break;
        case 6: kin6(k); break;
        case 7: kin7(k); break;
        case 8: inverses(k); break;
        case 9: chain(k); break;
        case 10: jac0(k); break;
        case 11: jac1(k); break;
        case 12: jac2(k); break;
        case 13: jac3(k); break;
        case 14: jac4(k); break;
        case 15: jac5(k); break;
        case 16: jac6(k); break;
        case 17: jac7(k); break;
        case 18: jac8(k); break;
        case 19: jac9(k); break;
        case 20: jac10(k); break;
        case 21: jac11(k); break;
        case 22: jac12(k); break;
        case 23: jac13(k); break;
    }
}
