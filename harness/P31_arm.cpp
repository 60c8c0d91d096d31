// BOUNDS: joint-space point-to-point trajectories of 2 joints, trajectories of up to 4 (thorough 6) samples, all positions, limits and sampling times symbolic
// SYM: budget=250 qt=20
#include "common.h"
#include <ct/rbd/common/SimpleArmTrajectoryGenerator.h>
using namespace ct::rbd;
void sym_main()
{
    typedef Eigen::Matrix<double, 2, 1> V;
    V x0 = symMat<2>("x0"), xT = symMat<2>("xT"), v, a;
    for (int i = 0; i < 2; i++) v(i) = symPos("v" + S(i)), a(i) = symPos("a" + S(i));
    double dt = symPos("dt");
    SimpleArmTrajectoryGenerator<2> gen(v, a);
    SingleDOFTrajectoryGenerator g[2];
    double T = 0;
    for (int i = 0; i < 2; i++) T = std::max(T, g[i].setup(x0(i), xT(i), v(i), a(i)));
    sym_assume_le(T, (THOROUGH ? 5 : 3) * dt);
    StateTrajectory<4> tr = gen.generateTrajectory(x0, xT, dt);
    size_t n = tr.size();
    assertTrue(n >= 1, "not-empty");
    assertTrue(tr.getDataArray().size() == tr.getTimeArray().size(), "sizes");
    // the samples cover the horizon up to half a sampling period
    assertLe(T - 0.5 * dt, (n - 1) * dt, "covers-horizon");
    assertLe((n - 1) * dt, T + 0.5 * dt, "no-excess");
    for (size_t k = 0; k < n; k++)
    {
        assertEq(tr.getTimeFromIndex(k), k * dt, "sample-time");
        for (int i = 0; i < 2; i++)
        {
            double x, w;
            g[i].queryTrajectory(k * dt, x, w);
            assertEq(tr[k](i), x, "sample-position");
            assertEq(tr[k](2 + i), w, "sample-velocity");
        }
    }
}
