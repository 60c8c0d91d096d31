// BOUNDS: 1 state, 1 control, 3 stages, shot lengths 1 to 3, all 7 algorithms, one real-time iteration (prepare, measured state arrives, finish), arbitrary dynamics, linearisation and cost functions of (x,u,t), symbolic guess with feedback, measured state and time step; stage Hessians assumed positive
// SYM: budget=500 abs=1
#include "ocommon.h"
const int N = 1, M = 1, K = 3;
typedef NLOptConSolver<N, M, 0, 1, double, false> Solver;
typedef DiscreteOptConProblem<N, M> Problem;
typedef std::vector<double> V;
void sym_main()
{
    int alg = symChoice("alg", 7);
    int kshot = singleShooting(alg) ? 1 : 1 + symChoice("kshot", K);
    double dt = symIn("dt", 0.01, 10);
    auto sys = std::make_shared<UFDiscSys<N, M>>();
    auto lin = std::make_shared<UFDiscLin<N, M>>();
    auto cost = std::make_shared<UFCost<N, M>>();
    StateVector<N> x0(symMat<N>("x0")), xm(symMat<N>("xm"));
    Problem prob(K, x0, sys, cost, lin);
    NLOptConSettings st = nlocSettings(alg, dt, kshot);
    Solver s(prob, st);
    bool closed = closedLoop(alg);
    int ks = singleShooting(alg) ? K : kshot;
    StateVectorArray<N> xg, x;
    ControlVectorArray<M> ug, u;
    FeedbackArray<N, M> Lg;
    for (int k = 0; k <= K; k++) xg.push_back(StateVector<N>(symMat<N>("xg" + ::S(k))));
    for (int k = 0; k < K; k++)
    {
        ug.push_back(ControlVector<M>(symMat<M>("ug" + ::S(k))));
        Lg.push_back(FeedbackMatrix<N, M>(symMat<M, N>("Lg" + ::S(k))));
    }
    // current trajectory: the warm start, starting at the measured state, shots integrated
    x = xg;
    x[0] = xm;
    u = ug;
    std::vector<StateVector<N>> next(K);
    for (int k = 0; k < K; k++)
    {
        if (closed) u[k] = ControlVector<M>(u[k] + Lg[k] * (x[k] - xg[k]));
        next[k] = sys->F(x[k], k, u[k]);
        if ((k + 1) % ks != 0 || k + 1 == K) x[k + 1] = next[k];
    }
    V A(K), B(K), b(K), L(K), l(K), dx(K + 1, 0), S(K + 1), sv(K + 1);
    S[K] = cost->Fxx(x[K], K * dt)(0);
    sv[K] = cost->Fx(x[K], K * dt)(0);
    for (int k = K - 1; k >= 0; k--)
    {
        A[k] = lin->A(x[k], u[k], k)(0);
        B[k] = lin->B(x[k], u[k], k)(0);
        b[k] = next[k](0) - x[k + 1](0);
        double Q = dt * cost->Lxx(x[k], u[k], k * dt)(0), R = dt * cost->Luu(x[k], u[k], k * dt)(0), P = dt * cost->Lux(x[k], u[k], k * dt)(0);
        double q = dt * cost->Lx(x[k], u[k], k * dt)(0), r = dt * cost->Lu(x[k], u[k], k * dt)(0);
        double H = R + B[k] * S[k + 1] * B[k];
        sym_assume_lt(1e-3, H);
        double G = P + B[k] * S[k + 1] * A[k], g = r + B[k] * (sv[k + 1] + S[k + 1] * b[k]);
        L[k] = -G / H;
        l[k] = -g / H;
        S[k] = Q + A[k] * S[k + 1] * A[k] - G * G / H;
        sv[k] = q + A[k] * (sv[k + 1] + S[k + 1] * b[k]) - G * g / H;
    }
    for (int k = 0; k < K; k++) dx[k + 1] = A[k] * dx[k] + B[k] * (l[k] + L[k] * dx[k]) + b[k];
    s.setInitialGuess(StateFeedbackController<N, M>(xg, ug, Lg, dt));
    s.prepareMPCIteration();
    s.changeInitialState(xm);
    s.finishMPCIteration();
    StateVectorArray<N> xs = s.getStateTrajectory().getDataArray();
    ControlVectorArray<M> us = s.getControlTrajectory().getDataArray();
    auto pol = s.getSolution();
    assertTrue((int)xs.size() == K + 1 && (int)us.size() == K && (int)pol.K().size() == K, "sizes");
    if ((int)xs.size() != K + 1 || (int)us.size() != K || (int)pol.K().size() != K) return;
    assertEq(xs[0](0), xm(0), "starts-at-measured-state");
    for (int k = 0; k < K; k++)
    {
        assertEq(pol.K()[k](0), closed ? L[k] : 0.0, "gain" + ::S(k));
        // the policy is the optimal one of the linearised problem: at its reference state it commands the optimal control
        double dev = closed ? xs[k](0) - x[k](0) : dx[k];
        assertEq(us[k](0), u[k](0) + l[k] + L[k] * dev, "u" + ::S(k));
        if (k && k % ks == 0) assertEq(xs[k](0), x[k](0) + dx[k], "x" + ::S(k));
    }
}
