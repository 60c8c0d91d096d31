// kinematics of a generated robot: homogeneous / motion / force transforms and Jacobians
#pragma once
#include "common.h"
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 4, 4> M4;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
static M3 sk(const V3& v)
{
    M3 m;
    m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
    return m;
}
static M6 motionOf(const M4& H)
{
    M3 R = H.topLeftCorner<3, 3>();
    M6 x = M6::Zero();
    x.topLeftCorner<3, 3>() = R;
    x.bottomRightCorner<3, 3>() = R;
    x.bottomLeftCorner<3, 3>() = sk(V3(H.topRightCorner<3, 1>())) * R;
    return x;
}
static M6 forceOf(const M4& H)
{
    M3 R = H.topLeftCorner<3, 3>();
    M6 x = M6::Zero();
    x.topLeftCorner<3, 3>() = R;
    x.bottomRightCorner<3, 3>() = R;
    x.topRightCorner<3, 3>() = sk(V3(H.topRightCorner<3, 1>())) * R;
    return x;
}
// joint angle q = 2 atan(t): every angle other than pi (mod 2 pi)
template <typename JS>
struct Angles
{
    JS q;
    std::vector<double> t;
    Angles(int n, const std::string& name = "t")
    {
        for (int i = 0; i < n; i++)
        {
            t.push_back(symReal(name + S(i)));
            q(i) = 2 * std::atan(t[i]);
        }
    }
    double dqdt(int i) const { return 2 / (1 + t[i] * t[i]); }
};
static void rigid(const M4& H, const std::string& n, double tol = 1e-6)
{
    M3 R = H.topLeftCorner<3, 3>();
    assertEqM(M3(R * R.transpose()), M3(M3::Identity()), n + ".orthonormal", tol);
    assertEq(R.determinant(), 1, n + ".right-handed", tol);
    for (int j = 0; j < 4; j++)
        assertEq(H(3, j), j == 3, n + ".affine");
}
static void inversePair(const M4& a, const M4& b, const std::string& n, double tol = 1e-6)
{
    assertEqM(M4(a * b), M4(M4::Identity()), n + ".inverse", tol);
}
template <typename J, typename A>
void jacobian(const J& jac, const M4& H, const A& a, const std::vector<int>& joints, const std::string& n)
{
    M3 R = H.topLeftCorner<3, 3>();
    for (int c = 0; c < (int)joints.size(); c++)
    {
        int k = joints[c];
        M3 W = sk(V3(jac(0, c), jac(1, c), jac(2, c))) * R;
        for (int i = 0; i < 3; i++)
        {
            assertDeriv(H(i, 3), "t" + ::S(k), jac(3 + i, c) * a.dqdt(k), n + ".lin" + S(i) + ".q" + S(k));
            for (int j = 0; j < 3; j++)
                assertDeriv(R(i, j), "t" + ::S(k), W(i, j) * a.dqdt(k), n + ".ang" + S(i) + S(j) + ".q" + S(k));
        }
    }
}
// F(name): the homogeneous transform, with the motion and force transforms of the same pair checked against it
#define XFORM(H, ht, mt, ft, q, name)                        \
    M4 H = ht.name(q);                                       \
    rigid(H, #name);                                         \
    assertEqM(M6(mt.name(q)), motionOf(H), #name ".motion"); \
    assertEqM(M6(ft.name(q)), forceOf(H), #name ".force");
static V6 crf(const V6& v, const V6& f)
{
    V6 r;
    r.head<3>() = sk(v.head<3>()) * f.head<3>() + sk(v.tail<3>()) * f.tail<3>();
    r.tail<3>() = sk(v.head<3>()) * f.tail<3>();
    return r;
}
static V6 crm(const V6& v, const V6& m)
{
    V6 r;
    r.head<3>() = sk(v.head<3>()) * m.head<3>();
    r.tail<3>() = sk(v.tail<3>()) * m.head<3>() + sk(v.head<3>()) * m.tail<3>();
    return r;
}
// Newton-Euler reference on a tree of links with revolute joints about the z axis of each link frame; body 0 is the base
struct Tree
{
    struct Link
    {
        int parent;
        M6 X;  // motion transform from the parent's coordinates
        M6 I;
    };
    std::vector<Link> l;
    // returns joint torques; bw: wrench on the base needed
    std::vector<double> rnea(const V6& bv, const V6& ba, const std::vector<double>& qd, const std::vector<double>& qdd,
        const std::vector<V6>& fe, V6& bw) const
    {
        int n = l.size();
        std::vector<V6> v(n), a(n), f(n);
        V6 z = V6::Zero();
        z(2) = 1;
        for (int i = 0; i < n; i++)
        {
            if (i == 0)
            {
                v[0] = bv;
                a[0] = ba;
            }
            else
            {
                v[i] = l[i].X * v[l[i].parent] + z * qd[i - 1];
                a[i] = l[i].X * a[l[i].parent] + z * qdd[i - 1] + crm(v[i], z) * qd[i - 1];
            }
            f[i] = l[i].I * a[i] + crf(v[i], V6(l[i].I * v[i]));
            if (!fe.empty())
                f[i] -= fe[i];
        }
        std::vector<double> tau(n - 1);
        for (int i = n - 1; i > 0; i--)
        {
            tau[i - 1] = f[i](2);
            f[l[i].parent] += l[i].X.transpose() * f[i];
        }
        bw = f[0];
        return tau;
    }
};
template <typename V>
std::vector<double> stdv(const V& v)
{
    return std::vector<double>(v.data(), v.data() + v.size());
}
