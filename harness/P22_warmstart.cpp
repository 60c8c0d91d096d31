// BOUNDS: default MPC warm start and post-truncation: policies of 1 to 3 stages, 1 state, 1 control, symbolic data and time step, delay up to 5 steps, new horizon up to 4.4 steps
// SYM: budget=300
#include "ocommon.h"
const int N = 1, M = 1;
typedef StateFeedbackController<N, M> Pol;
void sym_main()
{
    int K = 1 + symChoice("K", 3);
    bool trunc = symChoice("truncate", 2);
    double dt = symIn("dt", 0.01, 10);
    StateVectorArray<N> x;
    ControlVectorArray<M> u;
    FeedbackArray<N, M> L;
    for (int k = 0; k <= K; k++) x.push_back(StateVector<N>(symMat<N>("x" + ::S(k))));
    for (int k = 0; k < K; k++)
    {
        u.push_back(ControlVector<M>(symMat<M>("u" + ::S(k))));
        L.push_back(FeedbackMatrix<N, M>(symMat<M, N>("L" + ::S(k))));
    }
    Pol p(x, u, L, dt);
    StateFeedbackPolicyHandler<N, M, double> h(dt);
    double rd = symIn("delay", 0, 5), delay = rd * dt;
    // whole steps elapsed, at most to the last control
    int n = 0;
    while (n + 1 < K && (n + 1) <= rd) n++;
    int Kn = K - n;
    if (trunc)
    {
        double eff = -1;
        h.truncateSolutionFront(delay, p, eff);
        assertEq(eff, n * dt, "truncated-time");
    }
    else
    {
        double r = symIn("T", 0.01, 4.4);
        h.designWarmStartingPolicy(delay, r * dt, p);
        Kn = 1;
        while (Kn + 0.5 <= r) Kn++;
    }
    auto& fx = p.getReferenceStateTrajectory();
    auto& fu = p.getFeedforwardTrajectory();
    auto& fL = p.getFeedbackTrajectory();
    assertTrue((int)fu.size() == Kn && (int)fL.size() == Kn && (int)fx.size() == Kn + 1, "sizes");
    if ((int)fu.size() != Kn || (int)fL.size() != Kn || (int)fx.size() != Kn + 1) return;
    for (int i = 0; i <= Kn; i++)
    {
        assertEqM(fx[i], x[std::min(i + n, K)], "x" + ::S(i));
        assertEq(fx.getTimeArray()[i], i * dt, "tx" + ::S(i));
        if (i == Kn) break;
        assertEqM(fu[i], u[std::min(i + n, K - 1)], "u" + ::S(i));
        assertEqM(fL[i], L[std::min(i + n, K - 1)], "L" + ::S(i));
        assertEq(fu.getTimeArray()[i], i * dt, "tu" + ::S(i));
        assertEq(fL.getTimeArray()[i], i * dt, "tL" + ::S(i));
    }
}
