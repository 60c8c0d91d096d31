// BOUNDS: multiple-shooting NLPs with 1-2 shots (thorough: 3), 1-2 integration steps per shot, 2 states x 1 control (1 x 1 for two shots of RK4), Euler and RK4, zero-order-hold and piecewise-linear controls, two successive decision vectors with every order of first evaluation; arbitrary dynamics f(x,u,t), all decision variables, step sizes and initial states symbolic; the step divides the shot duration
// SYM: budget=250
#include "dcommon.h"
template <size_t N, size_t M>
void run(int K, int sub, bool lin, bool rk4, bool full, bool history, const std::string& l)
{
    double h = symPos("h");
    StateVector<N> x0 = symMat<N, 1>("x0");
    Dms<N, M> d(K, sub, h, lin, full, rk4, x0);
    if (history)
    {
        d.set(d.fresh("v"));
        int ev = symChoice("ev", 4);
        if (ev & 1) d.constraints();
        if (ev & 2) d.jacobian(l);
    }
    d.set(d.fresh("w"));
    int ord = symChoice("order", 2);
    Eigen::MatrixXd J;
    if (ord) J = d.jacobian(l);
    Eigen::VectorXd g = d.constraints();
    if (!ord) J = d.jacobian(l);
    assertTrue(g.size() == (int)(N * (K + 1)), l + "-count");
    if (g.size() != (int)(N * (K + 1))) return;
    assertEqM(StateVector<N>(g.head(N)), StateVector<N>(d.x(0) - x0), l + "-initial-state");
    for (int i = 0; i < K; i++)
        assertEqM(StateVector<N>(g.segment(N * (i + 1), N)), StateVector<N>(d.x(i + 1) - d.shot(i)), l + "-continuity");
    d.checkJac(g, J, l);
    Eigen::VectorXd lo(g.size()), up(g.size());
    Eigen::Map<Eigen::VectorXd> ml(lo.data(), lo.size()), mu(up.data(), up.size());
    d.p->getConstraintBounds(ml, mu, g.size());
    for (int i = 0; i < g.size(); i++)
    {
        assertEq(lo(i), 0.0, l + "-lower");
        assertEq(up(i), 0.0, l + "-upper");
    }
}
void sym_main()
{
    int k = symChoice("case", 4), lin = symChoice("lin", 2);
    if (k == 0) run<2, 1>(2, 2, lin, false, symChoice("full", 2), true, "euler");
    if (k == 1) run<1, 1>(2, 1, lin, true, false, true, "rk4");
    if (k == 2) run<2, 1>(1, 1, lin, true, true, false, "rk4-2x1");
    if (k == 3) run<1, 1>(1, 2, lin, true, true, true, "rk4-substeps");
}
