// BOUNDS: 1 state, 1 control, 2 stages, 7 algorithms (shots of length 1), SIMPLE and ARMIJO, at most 2 trial steps, one iteration (thorough: two), arbitrary dynamics and cost functions of (x,u,t), symbolic guess, start state, time step, weights and step sizes
// SYM: budget=500 abs=1 maxpaths=40000
#include "ocommon.h"
const int N = 1, M = 1, K = 2;
typedef NLOptConSolver<N, M, 0, 1, double, false> Solver;
typedef DiscreteOptConProblem<N, M> Problem;
typedef std::vector<double> V;
struct Cost : public UFCost<N, M>
{
    Cost* clone() const override { return new Cost(*this); }
    MM controlSecondDerivativeIntermediate() override { return MM::Identity(); }
};
struct ZeroLin : public UFDiscLin<N, M>
{
    ZeroLin* clone() const override { return new ZeroLin(*this); }
    void getAandB(const StateVector<N>& x, const ControlVector<M>& u, const StateVector<N>& x_next, const int n, size_t subSteps, StateMatrix<N>& Am, StateControlMatrix<N, M>& Bm) override
    {
        Am.setIdentity();
        Bm.setZero();
    }
};
struct Ref
{
    UFDiscSys<N, M> sys;
    Cost cost;
    double dt, rho;
    bool single, closed;
    static StateVector<N> sx(double x) { StateVector<N> r; r(0) = x; return r; }
    static ControlVector<M> cu(double x) { ControlVector<M> r; r(0) = x; return r; }
    double F(double x, int k, double u) { return sys.F(sx(x), k, cu(u))(0); }
    // x,u of a trajectory in which the shots are integrated; feedback L around ref
    void rollout(V& x, V& u, const V& L, const V& ref)
    {
        for (int k = 0; k < K; k++)
        {
            if (closed) u[k] = u[k] + L[k] * (x[k] - ref[k]);
            if (single || k == K - 1) x[k + 1] = F(x[k], k, u[k]);
        }
    }
    double defect(const V& x, const V& u)
    {
        double d = 0;
        for (int k = 0; k + 1 < K; k++)
            if (!single) d = d + std::fabs(F(x[k], k, u[k]) - x[k + 1]);
        return d;
    }
    double total(const V& x, const V& u)
    {
        double c = 0;
        for (int k = 0; k < K; k++) c = c + cost.L(sx(x[k]), cu(u[k]), dt * k);
        return dt * c + cost.F(sx(x[K]), dt * K);
    }
    double merit(const V& x, const V& u) { return total(x, u) + rho * defect(x, u); }
};
V get(const StateVectorArray<N>& a) { V r; for (auto& x : a) r.push_back(x(0)); return r; }
V get(const ControlVectorArray<M>& a) { V r; for (auto& x : a) r.push_back(x(0)); return r; }
void iteration(Solver& s, Ref& r, int alg, V x, V u, const NLOptConSettings& st, const std::string& l)
{
    const LineSearchSettings& ls = st.lineSearchSettings;
    double m0 = r.merit(x, u), c0 = r.total(x, u), d0 = r.defect(x, u);
    sym_assume_ne(m0, 0);
    // search direction of the LQ problem with A = 1, B = 0, R = dt, P = dt Lux, r = dt Lu
    V lv(K), L(K), dx(K + 1, 0), du(K);
    for (int k = 0; k < K; k++)
    {
        lv[k] = -r.cost.Lu(r.sx(x[k]), r.cu(u[k]), k * r.dt)(0);
        L[k] = -r.cost.Lux(r.sx(x[k]), r.cu(u[k]), k * r.dt)(0);
        dx[k + 1] = dx[k] + (r.single || k == K - 1 ? 0.0 : r.F(x[k], k, u[k]) - x[k + 1]);
        du[k] = lv[k] + L[k] * dx[k];
    }
    bool better = s.runIteration();
    V xn = get(s.getStateTrajectory().getDataArray()), un = get(s.getControlTrajectory().getDataArray());
    double alpha = s.getBackend()->getSummary().stepSizes.back();
    int acc = ls.maxIterations;
    double a = ls.alpha_0, mn = 0;
    V xa, ua;
    for (int i = 0; i < (int)ls.maxIterations && acc == (int)ls.maxIterations; i++)
    {
        xa.assign(K + 1, 0);
        ua.assign(K, 0);
        V ref(K + 1);
        for (int k = 0; k <= K; k++)
        {
            bool noDx = alg == 0;
            xa[k] = x[k] + (noDx ? 0.0 : a * dx[k]);
            ref[k] = x[k] + (alg == 4 || alg == 6 ? a * dx[k] : 0.0);
        }
        for (int k = 0; k < K; k++) ua[k] = u[k] + a * (alg == 0 || alg == 2 ? lv[k] : du[k]);
        r.rollout(xa, ua, L, ref);
        mn = r.merit(xa, ua);
        bool ok;
        if (ls.type == LineSearchSettings::SIMPLE)
            ok = m0 - mn > 0;
        else
        {
            double D1 = 0, D2 = 0;
            for (int k = 0; k < K; k++)
            {
                D1 = D1 + lv[k] * r.dt * -lv[k];
                D2 = D2 + lv[k] * r.dt * lv[k];
            }
            // the documented Armijo test on the expected decrease, never an increase
            ok = m0 - mn >= ls.armijo_parameter * (a * (D1 + a * 0.5 * D2)) && m0 - mn >= 0;
        }
        if (ok)
            acc = i;
        else
            a = a * ls.n_alpha;
    }
    if (acc == (int)ls.maxIterations)
    {
        assertTrue(!better, l + "-rejected-returns-false");
        assertEq(alpha, 0, l + "-rejected-alpha");
        for (int k = 0; k <= K; k++) assertEq(xn[k], x[k], l + "-rejected-x");
        for (int k = 0; k < K; k++) assertEq(un[k], u[k], l + "-rejected-u");
        assertEq(s.getCost(), c0, l + "-rejected-cost");
        assertEq(s.getBackend()->getTotalDefect(), d0, l + "-rejected-defect");
        assertEq(s.getBackend()->getSummary().defect_l1_norms.back(), d0, l + "-rejected-summary-defect");
        assertEq(s.getBackend()->getSummary().merits.back(), m0, l + "-rejected-summary-merit");
        return;
    }
    // accepted at the first admissible step length, never worse
    assertEq(alpha, a, l + "-alpha");
    for (int k = 0; k <= K; k++) assertEq(xn[k], xa[k], l + "-x" + ::S(k));
    for (int k = 0; k < K; k++) assertEq(un[k], ua[k], l + "-u" + ::S(k));
    assertLe(r.merit(xn, un), m0, l + "-merit");
    assertEq(s.getCost(), r.total(xn, un), l + "-cost");
    assertEq(s.getBackend()->getTotalDefect(), r.defect(xn, un), l + "-defect");
    assertEq(s.getBackend()->getSummary().merits.back(), r.merit(xn, un), l + "-summary-merit");
    if (ls.type == LineSearchSettings::SIMPLE) assertTrue(better, l + "-better");
}
void sym_main()
{
    int alg = symChoice("alg", 7);
    double dt = symIn("dt", 0.01, 10);
    auto sys = std::make_shared<UFDiscSys<N, M>>();
    auto lin = std::make_shared<ZeroLin>();
    auto cost = std::make_shared<Cost>();
    StateVector<N> x0(symMat<N>("x0"));
    Problem prob(K, x0, sys, cost, lin);
    NLOptConSettings st = nlocSettings(alg, dt, 1);
    st.fixedHessianCorrection = false;
    st.lineSearchSettings.type = symChoice("type", 2) ? LineSearchSettings::ARMIJO : LineSearchSettings::SIMPLE;
    st.lineSearchSettings.maxIterations = 2;
    st.lineSearchSettings.alpha_0 = symIn("alpha0", 0.01, 1);
    st.lineSearchSettings.n_alpha = symIn("nalpha", 0.01, 0.99);
    st.lineSearchSettings.armijo_parameter = symIn("armijo", 0, 1);
    st.meritFunctionRho = symIn("rho", 0, 10);
    Solver s(prob, st);
    StateVectorArray<N> xg;
    ControlVectorArray<M> ug;
    FeedbackArray<N, M> Lg;
    for (int k = 0; k <= K; k++) xg.push_back(k ? StateVector<N>(symMat<N>("xg" + ::S(k))) : x0);
    for (int k = 0; k < K; k++)
    {
        ug.push_back(ControlVector<M>(symMat<M>("ug" + ::S(k))));
        Lg.push_back(FeedbackMatrix<N, M>(symMat<M, N>("Lg" + ::S(k))));
    }
    s.setInitialGuess(StateFeedbackController<N, M>(xg, ug, Lg, dt));
    Ref r;
    r.dt = dt;
    r.rho = st.meritFunctionRho;
    r.single = singleShooting(alg);
    r.closed = closedLoop(alg);
    // the guess rolled out
    V x = get(xg), u = get(ug), L;
    for (auto& l : Lg) L.push_back(l(0));
    r.rollout(x, u, L, get(xg));
    iteration(s, r, alg, x, u, st, "it1");
#if THOROUGH
    x = get(s.getStateTrajectory().getDataArray());
    u = get(s.getControlTrajectory().getDataArray());
    iteration(s, r, alg, x, u, st, "it2");
#endif
}
