// BOUNDS: 2 worker threads, 1 state, 1 control, 2 stages; GNMS full step, line search with up to 3 step lengths, two iterations (shots of length 1), and single shooting (iLQR); construction, solve and shutdown; every schedule with at most 1 (full step: 2; thorough: one more) deviations from run-until-blocked at atomic accesses, mutex and condition variable operations, thread start and calls of the user dynamics (sequentially consistent memory); arbitrary dynamics, linearisation and cost functions, symbolic guess and start state
// SYM: budget=400 abs=1 maxpaths=60000 sched=1
#include "ocommon.h"
extern "C" void __symrt_yield();
extern "C" void sym_sched_delays(int d);
const int N = 1, M = 1, K = 2;
typedef NLOptConSolver<N, M, 0, 1, double, false> Solver;
typedef DiscreteOptConProblem<N, M> Problem;
struct Sys : public UFDiscSys<N, M>
{
    Sys* clone() const override { return new Sys(*this); }
    void propagateControlledDynamics(const StateVector<N>& x, const int n, const ControlVector<M>& u, StateVector<N>& d) override
    {
        __symrt_yield();
        UFDiscSys<N, M>::propagateControlledDynamics(x, n, u, d);
    }
};
struct Cost : public UFCost<N, M>
{
    Cost* clone() const override { return new Cost(*this); }
    MM controlSecondDerivativeIntermediate() override { return MM::Identity(); }
};
struct Lin : public UFDiscLin<N, M>
{
    Lin* clone() const override { return new Lin(*this); }
    void getAandB(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& x_next, const int n, size_t subSteps, StateMatrix<N>& Am, StateControlMatrix<N, M>& Bm) override
    {
        Am = A(x, u, n);
        Bm.setZero();
    }
};
struct Result
{
    std::vector<double> v;
    bool better;
};
Result run(int threads, int alg, int ls, int its, const StateVector<N>& x0, const StateFeedbackController<N, M>& guess)
{
    Problem prob(K, x0, std::make_shared<Sys>(), std::make_shared<Cost>(), std::make_shared<Lin>());
    NLOptConSettings st = nlocSettings(alg, 1.0, 1);
    st.nThreads = threads;
    st.fixedHessianCorrection = false;
    st.min_cost_improvement = -1;
    st.lineSearchSettings.type = ls ? LineSearchSettings::SIMPLE : LineSearchSettings::NONE;
    st.lineSearchSettings.maxIterations = ls;
    st.lineSearchSettings.alpha_0 = 1;
    st.lineSearchSettings.n_alpha = 0.5;
    Result r;
    Solver s(prob, st);
    s.setInitialGuess(guess);
    for (int i = 0; i < its; i++) r.better = s.runIteration();
    auto xs = s.getStateTrajectory().getDataArray();
    auto us = s.getControlTrajectory().getDataArray();
    for (auto& x : xs) r.v.push_back(x(0));
    for (auto& u : us) r.v.push_back(u(0));
    auto p = s.getSolution();
    for (auto& k : p.K()) r.v.push_back(k(0));
    r.v.push_back(s.getCost());
    r.v.push_back(s.getBackend()->getTotalDefect());
    r.v.push_back(s.getBackend()->getSummary().stepSizes.back());
    return r;
}
void sym_main()
{
    // full multiple-shooting step; line search with three step lengths; two full steps; single shooting
    int mode = symChoice("mode", 4), alg = mode == 3 ? 3 : 1, ls = mode == 1 ? 3 : 0, its = mode == 2 ? 2 : 1;
    StateVector<N> x0(symMat<N>("x0"));
    StateVectorArray<N> xg;
    ControlVectorArray<M> ug;
    FeedbackArray<N, M> Lg;
    for (int k = 0; k <= K; k++) xg.push_back(k ? StateVector<N>(symMat<N>("xg" + ::S(k))) : x0);
    for (int k = 0; k < K; k++)
    {
        ug.push_back(ControlVector<M>(symMat<M>("ug" + ::S(k))));
        Lg.push_back(FeedbackMatrix<N, M>::Zero());
    }
    StateFeedbackController<N, M> guess(xg, ug, Lg, 1.0);
    Result one = run(1, alg, ls, its, x0, guess);
    sym_sched_delays(THOROUGH ? 2 + (mode == 0) : 1 + (mode == 0));
    Result two = run(2, alg, ls, its, x0, guess);
    assertTrue(one.v.size() == two.v.size(), "sizes");
    assertTrue(one.better == two.better, "better");
    std::string l = mode == 1 ? "linesearch" : mode == 2 ? "two-steps" : mode == 3 ? "single-shooting" : "step";
    for (size_t i = 0; i < one.v.size() && i < two.v.size(); i++) assertEq(two.v[i], one.v[i], l + "-result" + ::S(i));
}
