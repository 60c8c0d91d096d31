// BOUNDS: point-to-point trajectories of one degree of freedom, all start/target positions, velocity and acceleration limits (> 0) and query times symbolic, both operation modes, either direction, also after a previous setup
// SYM: budget=250 qt=20
#include "common.h"
#include <ct/rbd/common/SingleDOFTrajectoryGenerator.h>
using namespace ct::rbd;
void sym_main()
{
    double x0 = symReal("x0"), xT = symReal("xT"), v = symPos("v"), a = symPos("a");
    SingleDOFTrajectoryGenerator g;
    double T;
    int re = symChoice("reused", 2);
    if (re) g.setup(symReal("y0"), symReal("yT"), symPos("w"), symPos("b"));
    T = g.setup(x0, xT, v, a);
    double d = std::abs(xT - x0);
    double sgn = xT < x0 ? -1.0 : 1.0;
    double x, w;
    // minimum-time horizon
    if (d * a <= v * v)
        assertEq(T * T * a, 4 * d, "horizon-triangular");
    else
        assertEq(T, d / v + v / a, "horizon-trapezoidal");
    assertLe(0, T, "horizon-positive");
    int q = symChoice("query", re ? 2 : 5);
    if (q == 0)
    {
        g.queryTrajectory(0.0, x, w);
        assertEq(x, x0, "start-position");
        assertEq(w, 0.0, "start-velocity");
        g.queryTrajectory(T, x, w);
        assertEq(x, xT, "end-position");
        assertEq(w, 0.0, "end-velocity");
        double late = symPos("late");
        g.queryTrajectory(T + late, x, w);
        assertEq(x, xT, "hold-position");
        assertEq(w, 0.0, "hold-velocity");
    }
    else if (q == 1)
    {
        // velocity is the derivative of the position
        double t = symPos("t");
        sym_assume_lt(t, T);
        g.queryTrajectory(t, x, w);
        assertDeriv(x, "t", w, "velocity-is-derivative");
        assertLe(0, sgn * w, "monotone");
        assertLe(sgn * w, v, "velocity-limit");
    }
    else if (q == 2)
    {
        double t = symPos("t");
        sym_assume_lt(t, T);
        g.queryTrajectory(t, x, w);
        assertLe(0, sgn * (x - x0), "no-undershoot");
        assertLe(sgn * (xT - x), 0 + d, "within");
        assertLe(0, sgn * (xT - x), "no-overshoot");
    }
    else if (q == 3)
    {
        double t = symPos("t"), t2 = symPos("t2"), x2, w2;
        sym_assume_lt(t, t2);
        g.queryTrajectory(t, x, w);
        g.queryTrajectory(t2, x2, w2);
        assertLe(w2 - w, a * (t2 - t), "acceleration-limit");
        assertLe(w - w2, a * (t2 - t), "acceleration-limit");
        assertLe(sgn * (x2 - x), v * (t2 - t), "position-continuity");
    }
    else
    {
        double t = symReal("t");
        sym_assume_lt(t, 0);
        assertTrue(throws([&] { g.queryTrajectory(t, x, w); }), "negative-time-rejected");
    }
}
