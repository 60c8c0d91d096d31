// BOUNDS: multiple-shooting cost with 1-2 shots, 1-2 integration steps per shot, 2 states x 1 control, Euler and RK4 quadrature (FULL) and the node quadrature (SIMPLE), both control parameterisations, two successive decision vectors with every order of first evaluation; arbitrary dynamics, arbitrary time-varying cost, all decision variables and step sizes symbolic
// SYM: budget=250
#include "dcommon.h"
template <size_t N, size_t M>
void run(int K, int sub, bool lin, bool rk4, bool full, bool history, const std::string& l)
{
    double h = symPos("h");
    StateVector<N> x0 = symMat<N, 1>("x0");
    Dms<N, M> d(K, sub, h, lin, full, rk4, x0);
    if (history)
    {
        d.set(d.fresh("v"));
        int ev = symChoice("ev", 5);
        if (ev == 1) d.p->evaluateCostFun();
        if (ev == 2) d.gradient();
        if (ev == 3) d.jacobian(l);
        if (ev == 4)
        {
            d.constraints();
            d.gradient();
        }
    }
    d.set(d.fresh("w"));
    int ord = symChoice("order", 3);
    Eigen::VectorXd g;
    if (ord == 1) g = d.gradient();
    if (ord == 2) d.jacobian(l);
    double c = d.p->evaluateCostFun();
    if (ord != 1) g = d.gradient();
    double ref = 0;
    if (full)
        for (int i = 0; i < K; i++)
        {
            double li;
            d.shot(i, &li);
            ref = ref + li;
        }
    else
        for (int i = 0; i <= K; i++)
        {
            // left rectangle rule for zero-order hold, trapezoidal rule for piecewise-linear controls
            double wgt = lin ? ((i == 0 || i == K) ? 0.5 : 1.0) : (i == K ? 0.0 : 1.0);
            if (wgt > 0) ref = ref + wgt * (double)sub * h * d.c.L(d.x(i), d.u(i), d.t(i));
        }
    ref = ref + d.c.F(d.x(K), d.t(K));
    assertEq(c, ref, l + "-cost");
    for (size_t k = 0; k < d.nw(); k++) assertDeriv(c, d.names[k], g(k), l + "-grad-" + ::S(k));
}
void sym_main()
{
    int k = symChoice("case", 5), lin = symChoice("lin", 2);
    if (k == 0) run<2, 1>(2, 2, lin, false, true, true, "euler");
    if (k == 1) run<1, 1>(2, 1, lin, true, true, true, "rk4");
    if (k == 2) run<2, 1>(1, 1, lin, true, true, false, "rk4-2x1");
    if (k == 3) run<1, 1>(1, 2, lin, true, true, true, "rk4-substeps");
    if (k == 4) run<2, 1>(symChoice("K", 2) + 1, 1, lin, false, false, true, "simple");
}
