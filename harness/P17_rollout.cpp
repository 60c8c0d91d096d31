// BOUNDS: 1 state, 1 control, 3 stages, shot lengths 1, 2, 3 and 4 (longer than the horizon), all 7 algorithms, one iteration (thorough: two), arbitrary dynamics and cost functions of (x,u,t), symbolic guess, start state and time step
// SYM: budget=400 abs=1
#include "ocommon.h"
const int N = 1, M = 1, K = 3;
typedef NLOptConSolver<N, M, 0, 1, double, false> Solver;
typedef DiscreteOptConProblem<N, M> Problem;
// the step direction is arbitrary (through Lu, Lux), only its Hessian is fixed: consistency may not depend on the linearisation
struct Cost : public UFCost<N, M>
{
    Cost* clone() const override { return new Cost(*this); }
    MM controlSecondDerivativeIntermediate() override { return MM::Identity(); }
};
struct ZeroLin : public UFDiscLin<N, M>
{
    ZeroLin* clone() const override { return new ZeroLin(*this); }
    void getAandB(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& x_next, const int n, size_t subSteps, StateMatrix<N>& Am, StateControlMatrix<N, M>& Bm) override
    {
        Am.setIdentity();
        Bm.setZero();
    }
};
// the trajectories, cost, defects and times reported by the solver belong together
void consistent(Solver& s, UFDiscSys<N, M>& sys, UFCost<N, M>& cost, double dt, int kshot, const StateVector<N>& x0, const std::string& l, bool checkCost = true)
{
    StateVectorArray<N> x = s.getStateTrajectory().getDataArray();
    ControlVectorArray<M> u = s.getControlTrajectory().getDataArray();
    TimeArray tx = s.getStateTrajectory().getTimeArray(), tu = s.getControlTrajectory().getTimeArray();
    assertTrue((int)x.size() == K + 1 && (int)u.size() == K && (int)tx.size() == K + 1 && (int)tu.size() == K, l + "-sizes");
    if ((int)x.size() != K + 1 || (int)u.size() != K || (int)tx.size() != K + 1 || (int)tu.size() != K) return;
    for (int k = 0; k <= K; k++) assertEq(tx[k], k * dt, l + "-tx");
    for (int k = 0; k < K; k++) assertEq(tu[k], k * dt, l + "-tu");
    assertEqM(x[0], x0, l + "-x0");
    double cst = 0, defect = 0;
    for (int k = 0; k < K; k++)
    {
        StateVector<N> n = sys.F(x[k], k, u[k]);
        bool shotEnd = (k + 1) % kshot == 0 && k + 1 < K;
        if (!shotEnd)
            assertEqM(x[k + 1], n, l + "-dynamics" + ::S(k));
        else
            for (int i = 0; i < N; i++) defect = defect + std::fabs(n(i) - x[k + 1](i));
        cst = cst + cost.L(x[k], u[k], dt * k);
    }
    if (checkCost)
    {
        assertEq(s.getCost(), dt * cst + cost.F(x[K], dt * K), l + "-cost");
        if (kshot < K) assertEq(s.getBackend()->getTotalDefect(), defect, l + "-defect");
    }
    // the policy carries the same trajectories
    auto p = s.getSolution();
    for (int k = 0; k <= K; k++) assertEqM(p.x_ref()[k], x[k], l + "-policy-x");
    for (int k = 0; k < K; k++) assertEqM(p.uff()[k], u[k], l + "-policy-u");
    assertTrue((int)p.K().size() == K, l + "-policy-K");
    assertEq(s.getTimeHorizon(), K * dt, l + "-horizon");
}
void sym_main()
{
    int alg = symChoice("alg", 7);
    int kshot = singleShooting(alg) ? 1 : 1 + symChoice("kshot", K + 1);
    double dt = symIn("dt", 0.01, 10);
    auto sys = std::make_shared<UFDiscSys<N, M>>();
    auto lin = std::make_shared<ZeroLin>();
    auto cost = std::make_shared<Cost>();
    StateVector<N> x0(symMat<N>("x0"));
    Problem prob(K, x0, sys, cost, lin);
    NLOptConSettings st = nlocSettings(alg, dt, kshot);
    st.fixedHessianCorrection = false;
    Solver s(prob, st);
    StateVectorArray<N> xg;
    ControlVectorArray<M> ug;
    FeedbackArray<N, M> Lg;
    // a guess may be longer than the horizon; the rest is ignored
    int extra = symChoice("long", 2);
    for (int k = 0; k <= K + extra; k++) xg.push_back(StateVector<N>(symMat<N>("xg" + ::S(k))));
    for (int k = 0; k < K + extra; k++)
    {
        ug.push_back(ControlVector<M>(symMat<M>("ug" + ::S(k))));
        Lg.push_back(FeedbackMatrix<N, M>(symMat<M, N>("Lg" + ::S(k))));
    }
    int shortGuess = extra ? 0 : symChoice("short", 2);
    if (shortGuess)
    {
        int w = symChoice("which", 3);
        if (w == 0) xg.pop_back();
        if (w == 1) ug.pop_back();
        if (w == 2) Lg.pop_back();
        StateFeedbackController<N, M> g;
        bool thrown = throws([&] {
            StateFeedbackController<N, M> g2(xg, ug, Lg, dt);
            s.setInitialGuess(g2);
        });
        assertTrue(thrown, "short-guess-throws");
        assertTrue(throws([&] { s.runIteration(); }), "uninitialised-throws");
        return;
    }
    StateFeedbackController<N, M> g(xg, ug, Lg, dt);
    s.setInitialGuess(g);
    s.changeInitialState(x0);
    s.runIteration();
    int ks = singleShooting(alg) ? K + 1 : kshot;
    consistent(s, *sys, *cost, dt, ks, x0, "it1");
#if THOROUGH
    s.runIteration();
    consistent(s, *sys, *cost, dt, ks, x0, "it2");
#endif
}
