// BOUNDS: MPC driver with a recording stand-in for the solver (arbitrary solutions): two iterations (plus an optional reset), externally timed, 1 state, 1 control, 3-stage policies with symbolic data, arbitrary dynamics, symbolic clock readings and measured states; four horizon modes; delay 0 or two Euler pre-integration steps; warm/cold start, post-truncation, custom pre-integration controller, failing solver
// SYM: budget=400
#include "ocommon.h"
const int N = 1, M = 1, K = 3;
typedef StateFeedbackController<N, M> Pol;
const double dt = 0.5, T0 = 1.5;
struct Log
{
    double T = -1;
    Pol guess, sol;
    StateVector<N> x0;
    bool ok = true;
    std::string seq;
} lg;
struct Mock
{
    static const size_t STATE_D = N, CONTROL_D = M, POS_DIM = 0, VEL_DIM = 1;
    typedef double Scalar_t;
    typedef Pol Policy_t;
    struct Settings_t
    {
        double dt;
    };
    typedef ContinuousOptConProblem<N, M> OptConProblem_t;
    Mock(const OptConProblem_t& p, const Settings_t&) { lg.T = p.getTimeHorizon(); }
    double getTimeHorizon() const { return lg.T; }
    void changeTimeHorizon(const double& T) { lg.T = T; lg.seq += "T"; }
    void setInitialGuess(const Pol& p) { lg.guess = p; lg.seq += "g"; }
    void prepareMPCIteration() { lg.seq += "p"; }
    void changeInitialState(const StateVector<N>& x) { lg.x0 = x; lg.seq += "x"; }
    bool finishMPCIteration() { lg.seq += "f"; return lg.ok; }
    const Pol& getSolution() { return lg.sol; }
};
static Pol mk(const std::string& n)
{
    StateVectorArray<N> x;
    ControlVectorArray<M> u;
    FeedbackArray<N, M> L;
    for (int k = 0; k <= K; k++) x.push_back(StateVector<N>(symMat<N>(n + "x" + ::S(k))));
    for (int k = 0; k < K; k++)
    {
        u.push_back(ControlVector<M>(symMat<M>(n + "u" + ::S(k))));
        L.push_back(FeedbackMatrix<N, M>(symMat<M, N>(n + "L" + ::S(k))));
    }
    return Pol(x, u, L, dt);
}
// expected: policy p advanced by n stages with Kn stages (the last entry repeated)
static void same(Pol& q, const Pol& p, int n, int Kn, const std::string& l)
{
    int Kp = p.uff().size();
    assertTrue((int)q.uff().size() == Kn && (int)q.K().size() == Kn && (int)q.x_ref().size() == Kn + 1, l + ".sizes");
    if ((int)q.uff().size() != Kn || (int)q.K().size() != Kn || (int)q.x_ref().size() != Kn + 1) return;
    for (int i = 0; i <= Kn; i++)
    {
        assertEqM(q.x_ref()[i], p.x_ref()[std::min(i + n, Kp)], l + ".x" + ::S(i));
        assertEq(q.getReferenceStateTrajectory().getTimeArray()[i], i * dt, l + ".t" + ::S(i));
        if (i == Kn) break;
        assertEqM(q.uff()[i], p.uff()[std::min(i + n, Kp - 1)], l + ".u" + ::S(i));
        assertEqM(q.K()[i], p.K()[std::min(i + n, Kp - 1)], l + ".L" + ::S(i));
        assertEq(q.getFeedforwardTrajectory().getTimeArray()[i], i * dt, l + ".tu" + ::S(i));
    }
}
static double horizon(int mode, double left, double m)
{
    if (left < 0) left = 0;
    if (mode == FIXED_FINAL_TIME) return left;
    if (mode == CONSTANT_RECEDING_HORIZON) return T0;
    if (mode == FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON) return left > m ? left : m;
    return left < m ? left : m;
}
static int stages(double T)
{
    int k = 1;
    while (k < 6 && (k + 0.5) * dt <= T) k++;
    return k;
}
static int steps(double t, int Kp)
{
    int n = 0;
    while (n + 1 < Kp && (n + 1) * dt <= t) n++;
    return n;
}
void sym_main()
{
    lg = Log();
    mpc_settings st;
    st.useExternalTiming_ = true;
    int mode = symChoice("mode", 4);
    int var = symChoice("variant", 5);  // 0 plain, 1 pre-integration, 2 custom pre-integration controller, 3 post-truncation, 4 cold start
    st.mpc_mode = (MPC_MODE)mode;
    st.minimumTimeHorizonMpc_ = 0.7;
    st.stateForwardIntegration_ = var == 1 || var == 2;
    st.stateForwardIntegratorType_ = EULER;
    st.stateForwardIntegration_dt_ = 0.1;
    st.fixedDelayUs_ = st.stateForwardIntegration_ ? 200000 : 0;
    st.postTruncation_ = var == 3;
    st.coldStart_ = var == 4;
    double delay = 1e-6 * st.fixedDelayUs_;
    auto sys = std::make_shared<UFCtrlSys<N, M>>();
    auto cost = std::make_shared<UFCost<N, M>>();
    auto lin = std::make_shared<UFLin<N, M>>();
    ContinuousOptConProblem<N, M> prob(T0, StateVector<N>(symMat<N>("x0")), sys, cost, lin);
    Mock::Settings_t ms;
    ms.dt = dt;
    std::shared_ptr<PolicyHandler<Pol, N, M, double>> ph(new StateFeedbackPolicyHandler<N, M, double>(dt));
    MPC<Mock> mpc(prob, ms, st, ph);
    Pol g = mk("g"), pol;
    mpc.setInitialGuess(g);
    int rounds = symChoice("reset", 2);
    double t = symReal("t0", 0, 3), ts = -1;
    if (rounds)
    {
        // an earlier task, then reset for a new one
        lg.sol = mk("old");
        mpc.prepareIteration(t - 1);
        mpc.finishIteration(StateVector<N>(symMat<N>("xo")), t - 1, pol, ts);
        mpc.resetMpc(T0);
        mpc.setInitialGuess(g);
        assertTrue(!mpc.timeHorizonReached(), "reset-not-reached");
    }
    lg.seq = "";
    // first iteration
    mpc.prepareIteration(t);
    double h1 = horizon(mode, T0, 0.7);
    assertEq(lg.T, h1, "first.horizon");
    same(lg.guess, g, 0, var == 4 ? K : stages(h1), "first.guess");
    StateVector<N> x1(symMat<N>("x1"));
    Pol s1 = mk("s");
    lg.sol = s1;
    double t1 = t + symIn("d1", 0, 1);
    bool ok = mpc.finishIteration(x1, t1, pol, ts);
    assertTrue(ok, "first.ok");
    assertEqM(lg.x0, x1, "first.x0");
    assertEq(ts, t1, "first.time");
    same(pol, s1, 0, K, "first.policy");
    assertTrue(lg.seq == "Tgpxf", "first.sequence");
    lg.seq = "";
    // second iteration
    lg.T = T0;
    double t2 = t1 + symIn("d2", 0, 2), t3 = t2 + symIn("d3", 0, 1);
    mpc.prepareIteration(t2);
    double a = t2 - t1, b = a + delay;
    if (a > T0) a = T0;
    if (b > T0) b = T0;
    double left = T0 - (t2 - t1) - b, h2 = horizon(mode, left, 0.7);
    assertEq(lg.T, h2, "second.horizon");
    if (var == 4)
        same(lg.guess, g, 0, K, "second.guess");
    else
        same(lg.guess, s1, steps(b, K), stages(h2), "second.guess");
    bool reached = mode == CONSTANT_RECEDING_HORIZON ? false : mode == FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON ? !(left > 0.7) : !(left > 0);
    assertTrue(mpc.timeHorizonReached() == reached, "second.reached");
    StateVector<N> x2(symMat<N>("x2"));
    Pol s2 = mk("r");
    lg.sol = s2;
    lg.ok = var == 0 ? symChoice("ok", 2) : true;
    std::shared_ptr<Controller<N, M>> cc;
    if (var == 2) cc = std::make_shared<UFController<N, M>>();
    Pol warm(lg.guess);
    ok = mpc.finishIteration(x2, t3, pol, ts, cc);
    assertTrue(ok == lg.ok, "second.ok");
    StateVector<N> xe = x2;
    if (st.stateForwardIntegration_)
    {
        int n = (b - a) >= 0.15 ? 2 : (b - a) >= 0.05 ? 1 : 0;
        std::shared_ptr<Controller<N, M>> c = cc ? cc : std::shared_ptr<Controller<N, M>>(new Pol(s1));
        for (int i = 0; i < n; i++)
        {
            ControlVector<M> u;
            c->computeControl(xe, a + i * 0.1, u);
            StateVector<N> dx;
            sys->computeControlledDynamics(xe, a + i * 0.1, u, dx);
            xe = StateVector<N>(xe + 0.1 * dx);
        }
    }
    assertEqM(lg.x0, xe, "second.x0");
    assertTrue(lg.seq == "Tgpxf", "second.sequence");
    if (!lg.ok)
    {
        same(pol, warm, 0, warm.uff().size(), "second.fallback");
        return;
    }
    int n = 0;
    if (st.postTruncation_ && t3 - t1 > b) n = steps(t3 - t1 - b, K);
    assertEq(ts, t3 + (b - a) + n * dt, "second.time");
    same(pol, s2, n, K - n, "second.policy");
    assertEq(mpc.timeSinceFirstSuccessfulSolve(t3), t3 - t1, "since-first");
}
