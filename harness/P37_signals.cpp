// BOUNDS: quantiser: 2 signals, 2 samples each, |sample| below 1 interval (thorough: 2), both rounding methods, reset at any point; planes, ellipsoids: all coefficients and points symbolic; the least-squares fit of the plane estimator (pivoted QR) is outside
// SYM: budget=200 maxpaths=20000
// SYM-THOROUGH: budget=700 maxpaths=40000
#include "common.h"
#include <ct/core/common/QuantizationNoise.h>
#include <ct/core/geometry/Plane.h>
#include <ct/core/geometry/PlaneEstimator.h>
#include <ct/core/geometry/Ellipsoid.h>
#include <ct/core/common/ExternallyDrivenTimer.h>
void quantiser()
{
    const int n = 2, T = 2;
    const double R = THOROUGH ? 2 : 1;
    double q = symIn("q", 0.01, 10), b = symReal("bias");
    bool fl = symChoice("floor", 2), vec = symChoice("vector", 2);
    QuantizationNoise z(b, q, fl ? QuantizationNoise::FLOOR : QuantizationNoise::ROUND);
    int rst = symChoice("reset", T + 1), first = symChoice("first", 2);
    double in[n] = {0, 0}, out[n] = {0, 0};
    for (int k = 0; k < T; k++)
    {
        if (k == rst)
        {
            z.reset();
            for (int i = 0; i < n; i++) in[i] = out[i] = 0;
        }
        double v[n];
        for (int i = 0; i < n; i++)
        {
            v[i] = symReal("v" + S(k) + S(i));
            sym_assume_lt(v[i], R * q);
            sym_assume_lt(-R * q, v[i]);
            in[i] = in[i] + v[i];
        }
        if (vec)
        {
            Eigen::Matrix<double, n, 1> m;
            m << v[0], v[1];
            z.noisify<n>(m);
            v[0] = m(0);
            v[1] = m(1);
        }
        else
            for (int i = 0; i < n; i++) z.noisify(v[i ^ first], i ^ first);
        for (int i = 0; i < n; i++)
        {
            double o = v[i] - b, c = o / q;
            out[i] = out[i] + o;
            assertEq(c, std::floor(c + 0.5), "whole-intervals");
            // nothing is lost: the accumulated error stays within one interval
            double e = in[i] - out[i];
            if (fl)
            {
                assertLe(0, e, "rest-lower");
                assertLe(e, q, "rest-upper");
            }
            else
            {
                assertLe(e, q / 2, "rest-upper");
                assertLe(-q / 2, e, "rest-lower");
            }
        }
    }
}
void geometry()
{
    double a = symReal("a"), b = symReal("b"), c = symReal("c"), d = symReal("d"), x = symReal("x"), y = symReal("y");
    Plane p;
    int how = symChoice("how", 3);
    Eigen::Matrix<double, 4, 1> k;
    k << a, b, c, d;
    if (how == 0) p = Plane(a, b, c, d);
    if (how == 1) p = Plane(k);
    if (how == 2) p.set(a, b, c, d);
    assertEq(p.a(), a, "a");
    assertEq(p.b(), b, "b");
    assertEq(p.c(), c, "c");
    assertEq(p.d(), d, "d");
    for (int i = 0; i < 4; i++) assertEq(p.getCoefficient(i), k(i), "coefficient");
    assertTrue(throws([&] { p.getCoefficient(4); }), "coefficient-range");
    sym_assume_ne(a, 0);
    sym_assume_ne(b, 0);
    sym_assume_ne(c, 0);
    assertEq(a * p.solveX(x, y) + b * x + c * y, d, "solveX");
    assertEq(a * x + b * p.solveY(x, y) + c * y, d, "solveY");
    assertEq(a * x + b * y + c * p.solveZ(x, y), d, "solveZ");
}
void ellipsoid()
{
    Eigen::Vector3d x0 = symMat<3>("x0"), z = symMat<3>("z");
    // half axes s, rotation R from a quaternion: the scaled unit sphere is the level set
    Eigen::Vector3d s;
    for (int i = 0; i < 3; i++) s(i) = symIn("s" + S(i), 0.1, 10);
    Eigen::Quaterniond q(symReal("qw"), symReal("qx"), symReal("qy"), symReal("qz"));
    sym_assume_eq(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1);
    Eigen::Matrix3d R;
    double w = q.w(), a = q.x(), b = q.y(), c = q.z();
    R << 1 - 2 * (b * b + c * c), 2 * (a * b - w * c), 2 * (a * c + w * b), 2 * (a * b + w * c), 1 - 2 * (a * a + c * c), 2 * (b * c - w * a),
        2 * (a * c - w * b), 2 * (b * c + w * a), 1 - 2 * (a * a + b * b);
    Ellipsoid e(x0, Eigen::Matrix3d(s.asDiagonal()), Eigen::Matrix3d::Identity());
    e.setFromQuaterion(q);
    Eigen::Vector3d body = R.transpose() * (z - x0);
    double r = 0;
    for (int i = 0; i < 3; i++) r = r + s(i) * s(i) * body(i) * body(i);
    assertEq(e.insideEllipsoid(z), r - 1, "ellipsoid");
    assertEqM(e.x0(), x0, "centre");
    e.x0() = z;
    assertEq(e.insideEllipsoid(z), -1, "moved");
}
void timer()
{
    double a = symReal("t0"), b = symReal("t1"), c = symReal("t2");
    ct::core::ExternallyDrivenTimer t;
    assertEq(t.getElapsedTime(), 0, "timer-init");
    t.start(a);
    t.stop(b);
    assertEq(t.getElapsedTime(), b - a, "timer");
    t.stop(c);
    assertEq(t.getElapsedTime(), c - a, "timer-second-stop");
    t.start(b);
    t.stop(c);
    assertEq(t.getElapsedTime(), c - b, "timer-restart");
    t.reset();
    assertEq(t.getElapsedTime(), 0, "timer-reset");
}
void estimator()
{
    PlaneEstimator est;
    PlaneEstimator::point_measurements_t pts;
    for (int i = 0; i < 2; i++) pts.push_back(Eigen::Matrix<double, 3, 1>(symMat<3>("p" + S(i))));
    assertTrue(throws([&] { est.estimate(pts); }), "too-few-points");
}
void sym_main()
{
    switch (symChoice("case", 5))
    {
        case 0: quantiser(); break;
        case 1: geometry(); break;
        case 2: ellipsoid(); break;
        case 3: timer(); break;
        case 4: estimator(); break;
    }
}
