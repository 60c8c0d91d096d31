// BOUNDS: sensitivity integration: state dim 2, control dim 1, up to 2 (thorough 3) substeps Euler, 1 (thorough 2) RK4; step index 0..2; arbitrary dynamics f(x,u,t) with exact linearisation; generic and symplectic Euler
// SYM: budget=200
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<1> U;
template <typename D, typename SI>
void run(D& d, SI& si, int K, int n, const X& x, const U& u)
{
    X y;
    d.propagateControlledDynamics(x, n, u, y);
    typedef typename SI::StateVectorArrayPtr XP;
    typedef typename SI::ControlVectorArrayPtr UP;
    std::vector<XP, Eigen::aligned_allocator<XP>> xs(n + 1);
    std::vector<UP, Eigen::aligned_allocator<UP>> us(n + 1);
    xs[n] = d.getSubstates();
    us[n] = d.getSubcontrols();
    si.setSubstepTrajectoryReference(&xs, &us);
    StateMatrix<2> A;
    StateControlMatrix<2, 1> B;
    si.getAandB(x, u, y, n, K, A, B);
    for (int i = 0; i < 2; i++)
    {
        for (int j = 0; j < 2; j++) assertDeriv(y(i), "x" + S(j), A(i, j), "A[" + S(i) + "," + S(j) + "]");
        assertDeriv(y(i), "u0", B(i, 0), "B[" + S(i) + "]");
    }
    StateMatrix<2> A2;
    StateControlMatrix<2, 1> B2;
    si.getAandB(x, u, y, n, K, A2, B2);
    assertEqM(A2, A, "repeat-A");
    assertEqM(B2, B, "repeat-B");
}
void sym_main()
{
    X x = symMat<2>("x");
    U u = symMat<1>("u");
    double dt = symIn("dt", 0.01, 2);
    int type = symChoice("type", 5);
    int K = 1 + symChoice("K", type >= 2 && type < 4 ? (THOROUGH ? 2 : 1) : (THOROUGH ? 3 : 2));
    int n = symChoice("n", 3);
    auto cc = std::make_shared<ConstantController<2, 1>>(u);
    if (type < 4)
    {
        IntegrationType types[4] = {EULER, EULERCT, RK4, RK4CT};
        auto sys = std::make_shared<UFCtrlSys<2, 1>>("f");
        auto lin = std::make_shared<UFLin<2, 1>>("f");
        SystemDiscretizer<2, 1> d(sys, dt, types[type], K);
        SensitivityIntegrator<2, 1> si(dt / K, lin, cc, types[type]);
        if (symChoice("reset", 2))
        {
            SensitivityIntegrator<2, 1> s2(2 * dt, std::make_shared<UFLin<2, 1>>("g"), cc, EULER);
            s2.setLinearSystem(lin);
            s2.setStepper(types[type]);
            s2.setTimeDiscretization(dt / K);
            run(d, s2, K, n, x, u);
        }
        else
            run(d, si, K, n, x, u);
    }
    else
    {
        auto sys = std::make_shared<UFSymp<1, 1, 1>>("f");
        auto lin = std::make_shared<UFSympLin<1, 1, 1>>("f");
        SystemDiscretizer<2, 1, 1, 1> d(sys, dt, EULER_SYM, K);
        SensitivityIntegrator<2, 1, 1, 1> si(dt / K, lin, cc, EULER_SYM);
        run(d, si, K, n, x, u);
    }
}
