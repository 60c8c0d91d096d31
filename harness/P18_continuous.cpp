// BOUNDS: continuous-time problems, 1 state, 1 control, 2 stages, Euler and RK4 with 1 or 2 (thorough: 3) simulation substeps, sensitivities from the forward Euler approximation or sensitivity integration (Euler), optional reconfiguration from another time step and substep count, one multiple-shooting iteration, arbitrary vector field f(x,u,t), symbolic guess and time step
// SYM: budget=500 abs=1
#include "ocommon.h"
const int N = 1, M = 1, K = 2;
typedef NLOptConSolver<N, M> Solver;
typedef ContinuousOptConProblem<N, M> Problem;
struct Cost : public UFCost<N, M>
{
    Cost* clone() const override { return new Cost(*this); }
    MM controlSecondDerivativeIntermediate() override { return MM::Identity(); }
    MMN stateControlDerivativeIntermediate() override { return MMN::Zero(); }
    MN stateSecondDerivativeIntermediate() override { return MN::Zero(); }
    MN stateSecondDerivativeTerminal() override { return MN::Zero(); }
};
void sym_main()
{
    double dt = symIn("dt", 0.01, 2);
    int rk = symChoice("rk4", 2), ksim = 1 + symChoice("ksim", THOROUGH ? 3 : 2);
    int sens = rk ? 0 : symChoice("sens", 2);  // forward Euler approximation, sensitivity integrator
    int tv = sens ? symChoice("timeVarying", 2) : 0;
    int reconf = symChoice("reconfigure", 2);
    auto sys = std::make_shared<UFCtrlSys<N, M>>();
    auto lin = std::make_shared<UFLin<N, M>>();
    auto cost = std::make_shared<Cost>();
    StateVector<N> x0(symMat<N>("x0"));
    NLOptConSettings st = nlocSettings(1, dt, 1);
    st.integrator = rk ? IntegrationType::RK4CT : IntegrationType::EULERCT;
    st.K_sim = ksim;
    st.discretization = NLOptConSettings::APPROXIMATION::FORWARD_EULER;
    st.useSensitivityIntegrator = sens == 1;
    st.timeVaryingDiscretization = tv;
    NLOptConSettings first = st;
    if (reconf)
    {
        first.dt = 0.125;
        first.K_sim = 3 - ksim > 0 ? 3 - ksim : 1;
    }
    Problem prob(K * (reconf ? 0.125 : 0.5), x0, sys, cost, lin);
    if (!reconf) first.dt = 0.5;
    Solver s(prob, first);
    s.configure(st);
    assertTrue(s.getBackend()->getNumSteps() == K, "stages");
    StateVectorArray<N> xg;
    ControlVectorArray<M> ug;
    FeedbackArray<N, M> Lg;
    for (int k = 0; k <= K; k++) xg.push_back(k ? StateVector<N>(symMat<N>("xg" + ::S(k))) : x0);
    for (int k = 0; k < K; k++)
    {
        ug.push_back(ControlVector<M>(symMat<M>("ug" + ::S(k))));
        Lg.push_back(FeedbackMatrix<N, M>::Zero());
    }
    s.setInitialGuess(StateFeedbackController<N, M>(xg, ug, Lg, dt));
    s.runIteration();
    double h = dt / ksim;
    // substates of one stage
    auto flow = [&](const StateVector<N>& x, const ControlVector<M>& u, int k, std::vector<StateVector<N>>* sub = 0) {
        StateVector<N> y = x;
        auto f = [&](const StateVector<N>& xx, double t) { return sys->f(xx, u, t); };
        for (int i = 0; i < ksim; i++)
        {
            if (sub) sub->push_back(y);
            y = rk ? refRK4<N>(f, y, k * dt + i * h, h) : refEuler<N>(f, y, k * dt + i * h, h);
        }
        return y;
    };
    StateMatrixArray<N> As;
    StateControlMatrixArray<N, M> Bs;
    StateVectorArray<N> bs;
    s.getBackend()->retrieveLastAffineModel(As, Bs, bs);
    StateVectorArray<N> x = xg;
    x[K] = flow(xg[K - 1], ug[K - 1], K - 1);
    for (int k = 0; k < K; k++)
    {
        std::vector<StateVector<N>> sub;
        StateVector<N> n = flow(x[k], ug[k], k, &sub);
        assertEq(bs[k](0), k + 1 < K ? n(0) - x[k + 1](0) : 0.0, "defect" + ::S(k));
        double A = 1, B = 0;
        if (sens == 0)
        {
            A = 1 + dt * lin->s.A(x[k], ug[k], k * dt)(0);
            B = dt * lin->s.B(x[k], ug[k], k * dt)(0);
        }
        else
            for (int i = 0; i < ksim; i++)
            {
                // linearised along the substeps, or once at the start of the stage
                StateVector<N> z = tv ? sub[i] : x[k];
                double t = tv ? k * dt + i * h : k * dt;
                double a = lin->s.A(z, ug[k], t)(0), b = lin->s.B(z, ug[k], t)(0);
                B = B + h * (a * B + b);
                A = A + h * a * A;
            }
        assertEq(As[k](0), A, "A" + ::S(k));
        assertEq(Bs[k](0), B, "B" + ::S(k));
    }
    // new trajectory
    StateVectorArray<N> xs = s.getStateTrajectory().getDataArray();
    ControlVectorArray<M> us = s.getControlTrajectory().getDataArray();
    TimeArray tx = s.getStateTrajectory().getTimeArray();
    assertTrue((int)xs.size() == K + 1 && (int)us.size() == K && (int)tx.size() == K + 1, "sizes");
    if ((int)xs.size() != K + 1 || (int)us.size() != K) return;
    for (int k = 0; k <= K; k++) assertEq(tx[k], k * dt, "time" + ::S(k));
    assertEqM(xs[K], flow(xs[K - 1], us[K - 1], K - 1), "last-shot");
    double c = 0, d = 0;
    for (int k = 0; k < K; k++)
    {
        c = c + cost->L(xs[k], us[k], dt * k);
        if (k + 1 < K) d = d + std::fabs(flow(xs[k], us[k], k)(0) - xs[k + 1](0));
    }
    assertEq(s.getCost(), dt * c + cost->F(xs[K], dt * K), "cost");
    assertEq(s.getBackend()->getTotalDefect(), d, "total-defect");
}
