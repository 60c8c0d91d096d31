// BOUNDS: joint states of 1-2 joints with all positions, velocities, limits and tolerances symbolic; position wrapping for positions within 2 (thorough 4) turns of the lower limit and tolerances 0 <= tol < 1
// SYM: budget=200
#include "common.h"
#include <ct/rbd/state/JointState.h>
#include <ct/rbd/state/JointAcceleration.h>
using namespace ct::rbd;
template <size_t NJ>
void unique()
{
    typedef JointState<NJ> J;
    Eigen::Matrix<double, NJ, 1> lo = symMat<NJ>("lo", -4, 4);
    J j(Eigen::Matrix<double, 2 * NJ, 1>(symMat<2 * NJ>("s", -9, 9)));
    const int turns = THOROUGH ? 4 : 2;
    for (size_t i = 0; i < NJ; i++)
    {
        sym_assume_le(-turns * 2 * M_PI, j.getPosition(i) - lo(i));
        sym_assume_le(j.getPosition(i) - lo(i), turns * 2 * M_PI);
    }
    J o = j;
    double tol = 0.0;
    if (symChoice("tol?", 2))
    {
        tol = symReal("tol", 0, 1);
        sym_assume_le(0, tol);
        sym_assume_lt(tol, 1);
        j.toUniquePosition(lo, tol);
    }
    else
        j.toUniquePosition(lo);
    assertEqM(Eigen::Matrix<double, NJ, 1>(j.getVelocities()), Eigen::Matrix<double, NJ, 1>(o.getVelocities()), "wrap-keeps-velocity");
    for (size_t i = 0; i < NJ; i++)
    {
        double p = j.getPosition(i), q = o.getPosition(i);
        assertLe(lo(i) - tol, p, "wrap-lower", 1e-9);
        assertLe(p, lo(i) + 2 * M_PI + tol, "wrap-upper", 1e-9);
        // p - q is a whole number of turns: on this path it is constant
        double k = std::round((q - p) / (2 * M_PI));
        assertEq(p, q - k * 2 * M_PI, "wrap-whole-turns");
        // a position that is inside the admissible interval stays
        if (q >= lo(i) - tol && q < lo(i) + 2 * M_PI + tol) assertEq(p, q, "wrap-identity");
    }
    if (tol == 0.0)
        for (size_t i = 0; i < NJ; i++) assertTrue(j.getPosition(i) - lo(i) < 2 * M_PI + 1e-9, "wrap-half-open");
}
template <size_t NJ>
void limits()
{
    typedef JointState<NJ> J;
    typedef Eigen::Matrix<double, NJ, 1> V;
    J j(Eigen::Matrix<double, 2 * NJ, 1>(symMat<2 * NJ>("s")));
    J o = j;
    V lo = symMat<NJ>("lo"), hi = symMat<NJ>("hi"), vm = symMat<NJ>("vm", 0, 2);
    for (size_t i = 0; i < NJ; i++) sym_assume_le(lo(i), hi(i)), sym_assume_le(0, vm(i));
    double tol = 0.0;
    bool ok;
    if (symChoice("tol?", 2))
    {
        tol = symReal("tol", 0, 1);
        sym_assume_le(0, tol);
        ok = j.checkPositionLimits(lo, hi, tol);
    }
    else
        ok = j.checkPositionLimits(lo, hi);
    bool vok = j.checkVelocityLimits(vm);
    if (ok)
        for (size_t i = 0; i < NJ; i++)
        {
            assertLe(lo(i) - tol, o.getPosition(i), "position-limit-lower");
            assertLe(o.getPosition(i), hi(i) + tol, "position-limit-upper");
        }
    else
    {
        bool bad = false;
        for (size_t i = 0; i < NJ; i++)
            if (o.getPosition(i) < lo(i) - tol || o.getPosition(i) > hi(i) + tol) bad = true;
        assertTrue(bad, "position-limit-false-alarm");
    }
    if (vok)
        for (size_t i = 0; i < NJ; i++)
        {
            assertLe(o.getVelocity(i), vm(i), "velocity-limit");
            assertLe(-vm(i), o.getVelocity(i), "velocity-limit");
        }
    else
    {
        bool bad = false;
        for (size_t i = 0; i < NJ; i++)
            if (o.getVelocity(i) > vm(i) || -o.getVelocity(i) > vm(i)) bad = true;
        assertTrue(bad, "velocity-limit-false-alarm");
    }
    assertEqM(j.toImplementation(), o.toImplementation(), "limit-check-is-pure");
}
template <size_t NJ>
void access()
{
    typedef JointState<NJ> J;
    typedef Eigen::Matrix<double, 2 * NJ, 1> V;
    V a = symMat<2 * NJ>("a"), b = symMat<2 * NJ>("b");
    double s = symReal("k");
    sym_assume_ne(s, 0);
    J z, x(a), y(b);
    assertEqM(z.toImplementation(), V(V::Zero()), "default-zero");
    assertEqM((x + y).toImplementation(), V(a + b), "plus");
    assertEqM((x - y).toImplementation(), V(a - b), "minus");
    assertEqM((x * s).toImplementation(), V(a * s), "times");
    assertEqM((x / s).toImplementation(), V(a / s), "divide");
    const J c(a);
    for (size_t i = 0; i < NJ; i++)
    {
        assertEq(c.getPosition(i), a(i), "position");
        assertEq(c.getVelocity(i), a(NJ + i), "velocity");
        assertEq(c.getPositions()(i), a(i), "positions");
        assertEq(c.getVelocities()(i), a(NJ + i), "velocities");
    }
    int w = symChoice("write", 5);
    V e = a;
    double n = symReal("n");
    size_t i = symChoice("i", NJ);
    if (w == 0) x.getPosition(i) = n, e(i) = n;
    if (w == 1) x.getVelocity(i) = n, e(NJ + i) = n;
    if (w == 2) x.getPositions()(i) = n, e(i) = n;
    if (w == 3) x.getVelocities()(i) = n, e(NJ + i) = n;
    if (w == 4) x.setZero(), e.setZero();
    assertEqM(x.toImplementation(), e, "write");
    J u(a), v(b);
    bool eq = u == v, ne = u != v;
    assertTrue(eq != ne, "eq-ne");
    if (eq)
        assertEqM(a, b, "equal");
    else
    {
        bool d = false;
        for (size_t k = 0; k < 2 * NJ; k++) d = d || a(k) != b(k);
        assertTrue(d, "different");
    }
    bool lt = u < v, gt = u > v;
    if (lt)
        for (size_t k = 0; k < 2 * NJ; k++) assertLt(a(k), b(k), "less");
    else
    {
        bool d = false;
        for (size_t k = 0; k < 2 * NJ; k++) d = d || a(k) >= b(k);
        assertTrue(d, "not-less");
    }
    assertTrue(gt == (v < u), "greater");
    JointAcceleration<NJ> acc;
    assertTrue(acc.getSize() == NJ, "acc-size");
    typedef Eigen::Matrix<double, NJ, 1> Q;
    assertEqM(acc.getAcceleration(), Q(Q::Zero()), "acc-zero");
    Q q = a.template head<NJ>();
    acc.setAcceleration(q);
    JointAcceleration<NJ> acc2(q);
    for (size_t k = 0; k < NJ; k++) assertEq(acc(k), q(k), "acc"), assertEq(acc2(k), q(k), "acc-ctor");
    acc(i) = n;
    q(i) = n;
    assertEqM(acc.getAcceleration(), q, "acc-write");
    assertEqM(JointAcceleration<NJ>::Zero().getAcceleration(), Q(Q::Zero()), "acc-Zero");
}
void sym_main()
{
    switch (symChoice("what", 5))
    {
        case 0: unique<1>(); break;
        case 1: if (THOROUGH) unique<2>(); else limits<1>(); break;
        case 2: limits<2>(); break;
        case 3: access<1>(); break;
        case 4: access<2>(); break;
    }
}
