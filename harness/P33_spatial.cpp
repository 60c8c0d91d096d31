// BOUNDS: all velocities, masses (> 0), centres of mass, inertia tensors, articulated inertias, rotations (every rotation by an angle other than pi, through a rational parametrisation) and translations symbolic
// SYM: budget=250 qt=60
#include "common.h"
#include <iit/rbd/rbd.h>
#include <iit/rbd/InertiaMatrix.h>
#include <iit/rbd/utils.h>
#include <iit/rbd/robcogen_commons.h>
using namespace iit::rbd;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
static M3 sk(const V3& v)
{
    M3 m;
    m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
    return m;
}
// any rotation matrix (unit quaternion (1,a,b,c)/norm)
static M3 rot(const std::string& n)
{
    double a = symReal(n + "a"), b = symReal(n + "b"), c = symReal(n + "c");
    double d = 1 + a * a + b * b + c * c;
    M3 m;
    m << 1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b), 2 * (a * b + c), 1 - a * a + b * b - c * c,
        2 * (b * c - a), 2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c;
    return M3(m / d);
}
static M6 motionX(const M3& E, const V3& r)  // B_X_A, r: origin of B in A
{
    M6 x = M6::Zero();
    x.block<3, 3>(0, 0) = E;
    x.block<3, 3>(3, 3) = E;
    x.block<3, 3>(3, 0) = -E * sk(r);
    return x;
}
static M6 forceX(const M3& E, const V3& r)
{
    M6 x = M6::Zero();
    x.block<3, 3>(0, 0) = E;
    x.block<3, 3>(3, 3) = E;
    x.block<3, 3>(0, 3) = -E * sk(r);
    return x;
}
static M6 inertiaRef(double m, const V3& c, const M3& I)
{
    M6 x = M6::Zero();
    x.block<3, 3>(0, 0) = I;
    x.block<3, 3>(0, 3) = m * sk(c);
    x.block<3, 3>(3, 0) = -m * sk(c);
    x.block<3, 3>(3, 3) = m * M3::Identity();
    return x;
}
static M6 mcross(const V6& v)
{
    M6 x = M6::Zero();
    x.block<3, 3>(0, 0) = sk(v.head<3>());
    x.block<3, 3>(3, 3) = sk(v.head<3>());
    x.block<3, 3>(3, 0) = sk(v.tail<3>());
    return x;
}
void bias()
{
    double m = symPos("m");
    V3 c = symMat<3>("c");
    M3 I = symSym<3>("I");
    V6 v = symMat<6>("v");
    InertiaMatrixDense J(m, c, I);
    M6 R = inertiaRef(m, c, I), X = mcross(v);
    assertEqM(M6(J), R, "inertia-matrix");
    assertEqM(V6(vxIv(v, J)), V6(-X.transpose() * (R * v)), "bias-force");
    V6 z = V6::Zero();
    z(2) = v(2);
    assertEqM(V6(vxIv(v(2), J)), V6(-mcross(z).transpose() * (R * z)), "bias-force-z");
    M6 a = M6::Zero(), b = M6::Zero();
    motionCrossProductMx<double>(v, a);
    forceCrossProductMx<double>(v, b);
    assertEqM(a, X, "motion-cross");
    assertEqM(b, M6(-X.transpose()), "force-cross");
    M6 a2 = M6(symMat<6, 6>("g")), b2 = a2;
    Utils::fillAsMotionCrossProductMx<double>(v, a2);
    Utils::fillAsForceCrossProductMx<double>(v, b2);
    assertEqM(a2, X, "utils-motion-cross");
    assertEqM(b2, M6(-X.transpose()), "utils-force-cross");
    assertEqM(Utils::buildCrossProductMatrix(c), sk(c), "cross");
    V3 d = symMat<3>("d");
    M3 T = Utils::buildInertiaTensor<double>(I(0, 0), I(1, 1), I(2, 2), c(0), c(1), c(2));
    M3 Tr;
    Tr << I(0, 0), -c(0), -c(1), -c(0), I(1, 1), -c(2), -c(1), -c(2), I(2, 2);
    assertEqM(T, Tr, "inertia-tensor");
    assertEqM(V3(linearPart(v)), V3(v.tail<3>()), "linear-part");
    assertEqM(V3(angularPart(v)), V3(v.head<3>()), "angular-part");
}
void inertia()
{
    double m = symPos("m"), n = symPos("n");
    V3 c = symMat<3>("c"), d = symMat<3>("d");
    M3 I = symSym<3>("I"), K = symSym<3>("K");
    InertiaMatrixDense J;
    J.fill(m, c, I);
    assertEqM(M6(J), inertiaRef(m, c, I), "inertia-fill");
    assertEq(J.getMass(), m, "mass");
    assertEqM(V3(J.getCOM()), c, "com");
    assertEqM(M3(J.get3x3Tensor()), I, "tensor");
    int w = symChoice("op", 6);
    InertiaMatrixDense J2;
    switch (w)
    {
        case 0:
            J.changeMass(n);
            assertEqM(M6(J), inertiaRef(n, c, M3(I * (n / m))), "change-mass");
            break;
        case 1:
        {
            J.changeCOM(d);
            M3 e = I - m * sk(c) * sk(c).transpose() + m * sk(d) * sk(d).transpose();
            assertEqM(M6(J), inertiaRef(m, d, e), "change-com");
            break;
        }
        case 2:
            J.changeRotationalInertia(K);
            assertEqM(M6(J), inertiaRef(m, c, K), "change-inertia");
            break;
        case 3:
            J2.fill(n, d, K);
            J += J2;
            assertEqM(M6(J), M6(inertiaRef(m, c, I) + inertiaRef(n, d, K)), "add");
            break;
        case 4:
            J2 = J;
            assertEqM(M6(J2), inertiaRef(m, c, I), "assign");
            break;
        case 5:
            J2 = inertiaRef(n, d, K);
            assertEqM(M6(J2), inertiaRef(n, d, K), "assign-matrix");
            break;
    }
}
void transform()
{
    double m = symPos("m");
    V3 c = symMat<3>("c"), r = symMat<3>("r");
    M3 I = symSym<3>("I"), E = rot("q");
    InertiaMatrixDense A(m, c, I), B;
    M6 X = forceX(E, r);
    transformInertia<double>(A, X, B);
    assertEqM(M6(B), M6(X * inertiaRef(m, c, I) * X.transpose()), "transform-inertia");
}
void articulated(bool prismatic)
{
    int z = prismatic ? 5 : 2;
    M6 IA = symSym<6>("IA");
    // computation across the joint
    {
        V6 U = IA.col(z);
        double D = symPos("D");
        sym_assume_eq(D, U(z));
        M6 Ia = M6::Zero(), e = IA - U * U.transpose() / D;
        if (prismatic)
            compute_Ia_prismatic(IA, U, D, Ia);
        else
            compute_Ia_revolute(IA, U, D, Ia);
        assertEqM(Ia, e, "articulated-inertia");
    }
    // coordinate transform of a matrix with the sparsity of the joint type
    M6 S = IA, out;
    S.row(z).setZero();
    S.col(z).setZero();
    V3 r = symMat<3>("r");
    M3 E = rot("q");
    M6 X = motionX(E, r);
    if (prismatic)
        ctransform_Ia_prismatic(S, X, out);
    else
        ctransform_Ia_revolute(S, X, out);
    assertEqM(out, M6(X.transpose() * S * X), "articulated-transform");
}
void rotations()
{
    double t[3], q[3], s[3], c[3];
    for (int i = 0; i < 3; i++)
    {
        t[i] = symReal("t" + ::S(i));
        q[i] = 2 * std::atan(t[i]);
        s[i] = std::sin(q[i]);
        c[i] = std::cos(q[i]);
    }
    M3 x, y, z;  // successive rotations, coordinate transforms A -> B
    x << 1, 0, 0, 0, c[0], s[0], 0, -s[0], c[0];
    y << c[1], 0, -s[1], 0, 1, 0, s[1], 0, c[1];
    z << c[2], s[2], 0, -s[2], c[2], 0, 0, 0, 1;
    M3 e = z * y * x, f;
    assertEqM(M3(Utils::buildRotationMatrix(q[0], q[1], q[2])), e, "rotation-matrix");
    Utils::fillAsRotationMatrix(q[0], q[1], q[2], f);
    assertEqM(f, e, "fill-rotation-matrix");
    Eigen::Matrix<double, 4, 4> H = Eigen::Matrix<double, 4, 4>::Identity();
    M3 R = symMat<3, 3>("R");
    V3 p = symMat<3>("p"), v = symMat<3>("v");
    H.block<3, 3>(0, 0) = R;
    H.block<3, 1>(0, 3) = p;
    assertEqM(V3(Utils::positionVector(H)), p, "position");
    assertEqM(M3(Utils::rotationMx(H)), R, "rotation");
    assertEqM(V3(Utils::zAxis(H)), V3(R.col(2)), "z-axis");
    assertEqM(V3(Utils::transform(H, v)), V3(R * v + p), "transform");
}
void sym_main()
{
    switch (symChoice("what", 6))
    {
        case 0: bias(); break;
        case 1: inertia(); break;
        case 2: transform(); break;
        case 3: articulated(false); break;
        case 4: articulated(true); break;
        case 5: rotations(); break;
    }
}
