// BOUNDS: 1 state, 1 control, 2 stages, shot lengths 1 and 2, all 7 algorithms, two iterations with a change of the initial state, of the dynamics or cost in between, or none; arbitrary dynamics and cost functions of (x,u,t), identity/zero linearisation, symbolic guess and time step
// SYM: budget=500 abs=1
#include "ocommon.h"
const int N = 1, M = 1, K = 2;
typedef NLOptConSolver<N, M, 0, 1, double, false> Solver;
typedef DiscreteOptConProblem<N, M> Problem;
typedef std::vector<double> V;
struct Cost : public UFCost<N, M>
{
    Cost(const std::string& n = "L") : UFCost<N, M>(n) {}
    Cost* clone() const override { return new Cost(*this); }
    MM controlSecondDerivativeIntermediate() override { return MM::Identity(); }
};
struct ZeroLin : public UFDiscLin<N, M>
{
    ZeroLin* clone() const override { return new ZeroLin(*this); }
    void getAandB(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& x_next, const int n, size_t subSteps, StateMatrix<N>& Am, StateControlMatrix<N, M>& Bm) override
    {
        Am.setIdentity();
        Bm.setZero();
    }
};
void sym_main()
{
    int alg = symChoice("alg", 7);
    int kshot = singleShooting(alg) ? 1 : 1 + symChoice("kshot", K);
    double dt = symIn("dt", 0.01, 10);
    auto sys = std::make_shared<UFDiscSys<N, M>>();
    auto lin = std::make_shared<ZeroLin>();
    auto cost = std::make_shared<Cost>();
    StateVector<N> x0(symMat<N>("x0"));
    Problem prob(K, x0, sys, cost, lin);
    NLOptConSettings st = nlocSettings(alg, dt, kshot);
    Solver s(prob, st);
    bool closed = closedLoop(alg);
    int ks = singleShooting(alg) ? K : kshot;
    StateVectorArray<N> xg;
    ControlVectorArray<M> ug;
    FeedbackArray<N, M> Lg;
    for (int k = 0; k <= K; k++) xg.push_back(k ? StateVector<N>(symMat<N>("xg" + ::S(k))) : x0);
    for (int k = 0; k < K; k++)
    {
        ug.push_back(ControlVector<M>(symMat<M>("ug" + ::S(k))));
        Lg.push_back(FeedbackMatrix<N, M>(symMat<M, N>("Lg" + ::S(k))));
    }
    s.setInitialGuess(StateFeedbackController<N, M>(xg, ug, Lg, dt));
    s.runIteration();
    auto p1 = s.getSolution();
    int what = symChoice("change", 4);
    StateVectorArray<N> x = p1.x_ref();
    ControlVectorArray<M> u = p1.uff();
    if (what == 1)
    {
        StateVector<N> xn(symMat<N>("xn"));
        s.changeInitialState(xn);
        x[0] = xn;
    }
    if (what == 2)
    {
        sys = std::make_shared<UFDiscSys<N, M>>("G");
        s.changeNonlinearSystem(sys);
    }
    if (what == 3)
    {
        cost = std::make_shared<Cost>("M");
        s.changeCostFunction(cost);
    }
    // start of the second iteration: the solution found, executed with its feedback from the new start
    bool rolled = what == 1 || what == 2;
    std::vector<StateVector<N>> next(K);
    for (int k = 0; k < K; k++)
    {
        if (closed && rolled) u[k] = ControlVector<M>(u[k] + p1.K()[k] * (x[k] - p1.x_ref()[k]));
        next[k] = sys->F(x[k], k, u[k]);
        if ((k + 1) % ks != 0 || k + 1 == K) x[k + 1] = next[k];
    }
    V dx(K + 1, 0);
    s.runIteration();
    StateVectorArray<N> xs = s.getStateTrajectory().getDataArray();
    ControlVectorArray<M> us = s.getControlTrajectory().getDataArray();
    auto pol = s.getSolution();
    std::string l = "change" + ::S(what) + "-";
    assertEq(xs[0](0), x[0](0), l + "x0");
    double c = 0;
    for (int k = 0; k < K; k++)
    {
        double lv = -cost->Lu(x[k], u[k], k * dt)(0), L = -cost->Lux(x[k], u[k], k * dt)(0);
        dx[k + 1] = dx[k] + next[k](0) - x[k + 1](0);
        double dev = closed ? xs[k](0) - x[k](0) : dx[k];
        assertEq(us[k](0), u[k](0) + lv + L * dev, l + "u" + ::S(k));
        assertEq(pol.K()[k](0), closed ? L : 0.0, l + "gain" + ::S(k));
        if (k && k % ks == 0)
            assertEq(xs[k](0), x[k](0) + dx[k], l + "x" + ::S(k));
        else if (k)
            assertEqM(xs[k], sys->F(xs[k - 1], k - 1, us[k - 1]), l + "dynamics" + ::S(k));
        c = c + cost->L(xs[k], us[k], dt * k);
    }
    assertEqM(xs[K], sys->F(xs[K - 1], K - 1, us[K - 1]), l + "dynamics-end");
    assertEq(s.getCost(), dt * c + cost->F(xs[K], dt * K), l + "cost");
}
