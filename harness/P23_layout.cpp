// BOUNDS: decision vectors of 1-3 shots, 2 states x 2 controls; time grids of 1-3 shots with one change of horizon or shot count; both spliners at an arbitrary time of an arbitrary shot; change of horizon and of initial state of a complete problem (2 shots, 1-2 integration steps per shot before and after); all values, times and horizons symbolic
// SYM: budget=250
#include "dcommon.h"
const size_t N = 2, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef Eigen::VectorXd V;
void layout()
{
    size_t K = 1 + symChoice("K", 3);
    double h = symPos("h");
    Dms<N, M> d(K, 1, h, symChoice("lin", 2), symChoice("full", 2), false, X(symMat<N>("x0")));
    assertTrue(d.p->getVarCount() == (K + 1) * (N + M), "var-count");
    if (d.p->getVarCount() != (K + 1) * (N + M)) return;
    StateVectorArray<N> xg;
    ControlVectorArray<M> ug;
    int xs = symChoice("dx", 3) - 1, us = symChoice("du", 3) - 1;
    for (int i = 0; i <= (int)K + xs; i++) xg.push_back(X(symMat<N>("xg" + ::S(i))));
    for (int i = 0; i <= (int)K + us; i++) ug.push_back(U(symMat<M>("ug" + ::S(i))));
    bool th = throws([&] { d.p->setInitialGuess(xg, ug); });
    assertTrue(th == (xs != 0 || us != 0), "guess-size-checked");
    if (!th && !xs && !us)
    {
        V g(d.nw());
        Eigen::Map<V> m(g.data(), g.size());
        d.p->getInitialGuess(d.nw(), m);
        d.w = g;
        for (size_t i = 0; i <= K; i++)
        {
            assertEqM(d.x(i), xg[i], "guess-state");
            assertEqM(d.u(i), ug[i], "guess-control");
        }
    }
    for (int rep = 0; rep < 2; rep++)
    {
        d.set(d.fresh("w" + ::S(rep) + "_"));
        const auto xs2 = d.p->getStateSolution();
        const auto us2 = d.p->getInputSolution();
        const auto ts = d.p->getTimeSolution();
        assertTrue(xs2.size() == K + 1 && us2.size() == K + 1 && ts.size() == K + 1, "solution-size");
        if (xs2.size() != K + 1 || us2.size() != K + 1 || ts.size() != K + 1) return;
        for (size_t i = 0; i <= K; i++)
        {
            assertEqM(X(xs2[i]), d.x(i), "solution-state");
            assertEqM(U(us2[i]), d.u(i), "solution-control");
            assertEqM(X(d.p->getStateTrajectory()[i]), d.x(i), "trajectory-state");
            assertEqM(U(d.p->getInputTrajectory()[i]), d.u(i), "trajectory-control");
            assertEq(ts[i], d.t(i), "solution-time");
        }
    }
    // not new: the stored vector stays
    V o = d.fresh("o");
    d.p->extractOptimizationVars(Eigen::Map<const V>(o.data(), o.size()), false);
    assertEqM(X(d.p->getStateSolution()[K]), d.x(K), "unchanged-when-not-new");
}
void guess()
{
    DmsSettings s;
    s.N_ = 1 + symChoice("K", 3);
    OptVectorDms<N, M> w((s.N_ + 1) * (N + M), s);
    X a = symMat<N>("a"), b = symMat<N>("b");
    U u = symMat<M>("u");
    w.setInitGuess(a, b, u);
    V g(w.size());
    Eigen::Map<V> m(g.data(), g.size());
    w.getInitialGuess(w.size(), m);
    for (size_t i = 0; i <= s.N_; i++)
    {
        double r = (double)i / (double)s.N_;
        assertEqM(X(g.segment(w.getStateIndex(i), N)), X(a + r * (b - a)), "linear-guess-state");
        assertEqM(U(g.segment(w.getControlIndex(i), M)), u, "linear-guess-control");
    }
}
void grid()
{
    size_t K = 1 + symChoice("K", 3);
    double T = symPos("T");
    ct::optcon::tpl::TimeGrid<double> g(K, T);
    int op = symChoice("op", 4);
    V hs;
    if (op == 1) g.changeTimeHorizon(T = symPos("T2"));
    if (op == 2) g.changeShotCount(K = 1 + symChoice("K2", 3));
    std::vector<double> t;
    for (size_t i = 0; i <= K; i++) t.push_back((double)i * T / (double)K);
    if (op == 3)
    {
        hs.resize(K);
        for (size_t i = 0; i < K; i++)
        {
            hs(i) = symPos("h" + ::S(i));
            t[i + 1] = t[i] + hs(i);
        }
        g.updateTimeGrid(hs);
    }
    assertTrue(g.toImplementation().size() == K + 1, "grid-size");
    for (size_t i = 0; i <= K; i++) assertEq(g.toImplementation()[i], t[i], "grid-node");
    for (size_t i = 0; i < K; i++)
    {
        assertEq(g.getShotStartTime(i), t[i], "shot-start");
        assertEq(g.getShotEndTime(i), t[i + 1], "shot-end");
        assertEq(g.getShotDuration(i), t[i + 1] - t[i], "shot-duration");
    }
    assertEq(g.getOptimizedTimeHorizon(), t[K], "grid-horizon");
    if (op != 3) assertEq(g.getTimeHorizon(), T, "horizon");
}
void spline()
{
    size_t K = 1 + symChoice("K", 3), i = symChoice("shot", K), lin = symChoice("lin", 2);
    auto tg = std::make_shared<ct::optcon::tpl::TimeGrid<double>>(K, 1.0);
    V hs(K);
    std::vector<double> t(1, 0.0);
    for (size_t k = 0; k < K; k++)
    {
        hs(k) = symPos("h" + ::S(k));
        t.push_back(t[k] + hs(k));
    }
    tg->updateTimeGrid(hs);
    std::shared_ptr<SplinerBase<U, double>> sp;
    if (lin)
        sp.reset(new LinearSpliner<U, double>(tg));
    else
        sp.reset(new ZeroOrderHoldSpliner<U, double>(tg));
    ControlVectorArray<M> old, q;
    for (size_t k = 0; k <= K; k++)
    {
        old.push_back(U(symMat<M>("o" + ::S(k))));
        U v;
        for (size_t j = 0; j < M; j++) v(j) = symReal("q" + ::S(k) + "_" + ::S(j));
        q.push_back(v);
    }
    if (symChoice("again", 2)) sp->computeSpline(old.toImplementation());
    sp->computeSpline(q.toImplementation());
    double s = symReal("s");
    sym_assume_le(t[i], s);
    sym_assume_le(s, t[i + 1]);
    U v = sp->evalSpline(s, i);
    double a = (s - t[i]) / hs(i);
    U ref = lin ? U((1.0 - a) * q[i] + a * q[i + 1]) : U(q[i]);
    assertEqM(v, ref, "spline-value");
    Eigen::Matrix<double, M, M> d0 = sp->splineDerivative_q_i(s, i), d1 = sp->splineDerivative_q_iplus1(s, i);
    U dt = sp->splineDerivative_t(s, i), dh = sp->splineDerivative_h_i(s, i);
    ControllerDms<N, M> c0(sp, i), c1(c0);
    std::shared_ptr<ControllerDms<N, M>> c2(c0.clone());
    ControllerDms<N, M>* cs[] = {&c0, &c1, c2.get()};
    ControllerDms<N, M>& c = *cs[symChoice("copy", 3)];
    U uc;
    X xx = symMat<N>("x");
    c.computeControl(xx, s, uc);
    assertEqM(uc, ref, "controller-value");
    assertEqM(Eigen::Matrix<double, M, M>(c.getDerivativeU0(xx, s)), d0, "controller-d0");
    assertEqM(Eigen::Matrix<double, M, M>(c.getDerivativeUf(xx, s)), d1, "controller-d1");
    for (size_t r = 0; r < M; r++)
    {
        for (size_t j = 0; j < M; j++)
        {
            assertDeriv(v(r), "q" + ::S(i) + "_" + ::S(j), d0(r, j), "spline-dq");
            assertDeriv(v(r), "q" + ::S(i + 1) + "_" + ::S(j), d1(r, j), "spline-dq1");
        }
        assertDeriv(v(r), "s", dt(r), "spline-dt");
        if (i == 0) assertDeriv(v(r), "h0", dh(r), "spline-dh");
    }
}
// a new horizon or a new initial state reaches every part of the problem
void change()
{
    bool lin = symChoice("lin", 2), full = symChoice("full", 2);
    double h = symPos("h");
    int sub = 1 + symChoice("sub", 2);
    X x0 = symMat<N>("x0");
    Dms<N, M> d(2, sub, h, lin, full, false, x0);
    if (symChoice("used", 2))
    {
        d.set(d.fresh("v"));
        d.constraints();
        d.jacobian("first");
        d.p->evaluateCostFun();
        d.gradient();
    }
    int what = symChoice("what", 3);
    if (what != 1)
    {
        d.sub = 1 + symChoice("sub2", 2);
        d.p->changeTimeHorizon(h * (double)(2 * d.sub));
        assertEq(d.p->getTimeHorizon(), h * (double)(2 * d.sub), "new-horizon");
    }
    if (what != 0) d.p->changeInitialState(x0 = X(symMat<N>("y0")));
    d.set(d.fresh("w"));
    V g = d.constraints();
    for (int i = 0; i <= 2; i++) assertEq(d.p->getTimeSolution()[i], d.t(i), "change-time");
    assertEqM(X(g.head(N)), X(d.x(0) - x0), "change-initial-state");
    double ref = 0;
    for (int i = 0; i < 2; i++)
    {
        double li;
        assertEqM(X(g.segment(N * (i + 1), N)), X(d.x(i + 1) - d.shot(i, &li)), "change-continuity");
        if (full) ref = ref + li;
    }
    if (!full)
        for (int i = 0; i <= 2; i++)
        {
            double wgt = lin ? (i == 1 ? 1.0 : 0.5) : (i == 2 ? 0.0 : 1.0);
            if (wgt > 0) ref = ref + wgt * (double)d.sub * h * d.c.L(d.x(i), d.u(i), d.t(i));
        }
    ref = ref + d.c.F(d.x(2), d.t(2));
    double c = d.p->evaluateCostFun();
    assertEq(c, ref, "change-cost");
    V gr = d.gradient();
    for (size_t k = 0; k < d.nw(); k++) assertDeriv(c, d.names[k], gr(k), "change-grad");
    d.checkJac(g, d.jacobian("change"), "change");
}
void sym_main()
{
    switch (symChoice("part", 5))
    {
        case 0: return layout();
        case 1: return guess();
        case 2: return grid();
        case 3: return spline();
        case 4: return change();
    }
}
