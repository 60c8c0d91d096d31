// BOUNDS: LQ problems with (states,controls,stages) = (2,1,2), (1,2,1), (1,1,3), (2,2,1) and re-use for another number of stages; all problem matrices (time-varying, with affine dynamics, linear and cross cost terms), start states and constraint bounds symbolic; control Hessians positive definite; fixed (Cholesky) and eigenvalue-based (1 control) Hessian handling
// SYM: budget=300
#include "common.h"
#include <ct/optcon/optcon.h>
using namespace ct::optcon;

template <int N, int M>
struct LQ
{
    typedef LQOCProblem<N, M> P;
    typedef Eigen::Matrix<double, N, N> MN;
    typedef Eigen::Matrix<double, M, M> MM;
    typedef Eigen::Matrix<double, M, N> MMN;
    typedef Eigen::Matrix<double, N, 1> VN;
    typedef Eigen::Matrix<double, M, 1> VM;
    std::shared_ptr<P> p;
    int K;
    std::string id;
    LQ(int k, const std::string& i = "", bool sparse = false) : p(new P(k)), K(k), id(i)
    {
        p->setZero();
        for (int j = 0; j < K; j++)
        {
            std::string s = id + "@" + ::S(j);
            p->A_[j] = symMat<N, N>("A" + s);
            p->B_[j] = symMat<N, M>("B" + s);
            p->b_[j] = symMat<N>("b" + s);
            p->Q_[j] = symSym<N>("Q" + s);
            p->R_[j] = symSym<M>("R" + s, 0.5, 2);
            p->P_[j] = symMat<M, N>("P" + s);
            p->qv_[j] = symMat<N>("q" + s);
            p->rv_[j] = symMat<M>("r" + s);
        }
        p->Q_[K] = symSym<N>("Qf" + id);
        p->qv_[K] = symMat<N>("qf" + id);
    }
    // every stage minimisation is strictly convex: reference backward recursion, without inverses for one control
    void assumeConvex()
    {
        MN S = p->Q_[K];
        for (int k = K - 1; k >= 0; k--)
        {
            MM H = p->R_[k] + p->B_[k].transpose() * S * p->B_[k];
            MMN G = p->P_[k] + p->B_[k].transpose() * S * p->A_[k];
            sym_assume_lt(0.0, H(0, 0));
            MM Hi;
            if (M == 1)
                Hi(0, 0) = 1.0 / H(0, 0);
            else
            {
                double det = H(0, 0) * H(M - 1, M - 1) - H(0, M - 1) * H(0, M - 1);
                sym_assume_lt(0.0, det);
                Hi(0, 0) = H(M - 1, M - 1) / det;
                Hi(M - 1, M - 1) = H(0, 0) / det;
                Hi(0, M - 1) = Hi(M - 1, 0) = -H(0, M - 1) / det;
            }
            if (k > 0) S = p->Q_[k] + p->A_[k].transpose() * S * p->A_[k] - G.transpose() * Hi * G;
        }
    }
    // first-order optimality of a trajectory: costate recursion and stationarity
    void kkt(const std::vector<VN>& x, const std::vector<VM>& u, const std::string& l)
    {
        VN lam = p->Q_[K] * x[K] + p->qv_[K];
        for (int k = K - 1; k >= 0; k--)
        {
            VM g = p->R_[k] * u[k] + p->rv_[k] + p->P_[k] * x[k] + p->B_[k].transpose() * lam;
            assertEqM(g, VM::Zero(), l + "-stationary" + ::S(k));
            lam = (p->Q_[k] * x[k] + p->qv_[k] + p->P_[k].transpose() * u[k] + p->A_[k].transpose() * lam).eval();
        }
    }
    void check(LQOCSolver<N, M>& s, const std::string& l)
    {
        // the affine policy is optimal from every start state
        std::vector<VN> x(K + 1);
        std::vector<VM> u(K);
        assertTrue((int)s.getSolutionFeedback().size() == K && (int)s.get_lv().size() == K &&
                       (int)s.getSolutionControl().size() == K && (int)s.getSolutionState().size() == K + 1,
            l + "-sizes");
        if ((int)s.getSolutionFeedback().size() != K || (int)s.get_lv().size() != K) return;
        x[0] = symMat<N>("x0" + id);
        for (int k = 0; k < K; k++)
        {
            u[k] = s.get_lv()[k] + s.getSolutionFeedback()[k] * x[k];
            x[k + 1] = p->A_[k] * x[k] + p->B_[k] * u[k] + p->b_[k];
        }
        kkt(x, u, l + "-policy");
        // the returned solution starts at zero, is dynamically feasible and follows the policy
        assertEqM(s.getSolutionState()[0], VN::Zero(), l + "-x0");
        for (int k = 0; k < K; k++)
        {
            VM uk = s.get_lv()[k] + s.getSolutionFeedback()[k] * s.getSolutionState()[k];
            assertEqM(s.getSolutionControl()[k], uk, l + "-u" + ::S(k));
            VN xn = p->A_[k] * s.getSolutionState()[k] + p->B_[k] * s.getSolutionControl()[k] + p->b_[k];
            assertEqM(s.getSolutionState()[k + 1], xn, l + "-x" + ::S(k));
        }
    }
};
template <int N, int M>
void run(int K, bool fixed, int way, const std::string& l)
{
    LQ<N, M> q(K);
    q.assumeConvex();
    NLOptConSettings st;
    st.epsilon = 0;
    st.fixedHessianCorrection = fixed;
    GNRiccatiSolver<N, M> s;
    s.configure(st);
    if (way == 1)
    {
        // previously used for a longer problem
        auto old = std::make_shared<LQOCProblem<N, M>>(K + 1);
        old->setZero();
        for (int k = 0; k <= K; k++)
        {
            old->R_[k].setIdentity();
            old->b_[k].setConstant(1);
            old->rv_[k].setConstant(2);
        }
        old->qv_[K + 1].setConstant(3);
        s.setProblem(old);
        s.solve();
        s.computeStatesAndControls();
    }
    s.setProblem(q.p);
    s.initializeAndAllocate();
    if (way == 2)
        for (int k = K - 1; k >= 0; k--) s.solveSingleStage(k);
    else
        s.solve();
    s.computeStatesAndControls();
    s.computeFeedbackMatrices();
    s.compute_lv();
    q.check(s, l);
}
template <int N, int M>
void ctors()
{
    LQ<N, M> q(1);
    q.assumeConvex();
    NLOptConSettings st;
    st.epsilon = 0;
    st.fixedHessianCorrection = true;
    int c = symChoice("ctor", 2);
    std::shared_ptr<GNRiccatiSolver<N, M>> s;
    if (c == 0)
        s.reset(new GNRiccatiSolver<N, M>(q.p));
    else
    {
        s.reset(new GNRiccatiSolver<N, M>(1));
        s->setProblem(q.p);
    }
    s->configure(st);
    s->solve();
    s->computeStatesAndControls();
    q.check(*s, c ? "ctorN" : "ctorProblem");
}
// regularisation: the policy solves the problem whose control Hessian is raised to epsilon / by epsilon
void regularised()
{
    bool fixed = symChoice("fixed", 2);
    double eps = symIn("eps", 1e-3, 10);
    LQ<1, 1> q(1);
    NLOptConSettings st;
    st.epsilon = eps;
    st.fixedHessianCorrection = fixed;
    GNRiccatiSolver<1, 1> s;
    s.configure(st);
    s.setProblem(q.p);
    double H = q.p->R_[0](0, 0) + q.p->B_[0](0, 0) * q.p->Q_[1](0, 0) * q.p->B_[0](0, 0);
    double G = q.p->P_[0](0, 0) + q.p->B_[0](0, 0) * q.p->Q_[1](0, 0) * q.p->A_[0](0, 0);
    double g = q.p->rv_[0](0) + q.p->B_[0](0, 0) * (q.p->qv_[1](0) + q.p->Q_[1](0, 0) * q.p->b_[0](0));
    if (fixed) sym_assume_lt(0.0, H + eps);
    s.solve();
    s.computeStatesAndControls();
    double Hr = fixed ? H + eps : (H > eps ? H : eps);
    assertEq(Hr * s.getSolutionFeedback()[0](0, 0), -G, "reg-K");
    assertEq(Hr * s.get_lv()[0](0), -g, "reg-lv");
}
// linear-quadratic problem data and constraints
void problem()
{
    const int N = 2, M = 2;
    typedef LQOCProblem<N, M> P;
    int K = 2;
    P p(K);
    p.setZero();
    assertTrue(p.getNumberOfStages() == K, "stages");
    assertTrue(!p.isConstrained(), "unconstrained");
    int kind = symChoice("kind", 7);
    Eigen::MatrixXd lb1 = symMat<1>("lb"), ub1 = symMat<1>("ub");
    Eigen::MatrixXd lb2 = symMat<2>("lb"), ub2 = symMat<2>("ub");
    Eigen::VectorXi sp1(1), sp2(2);
    int which = symChoice("which", 2);
    sp1 << which;
    sp2 << 0, 1;
    ControlVectorArray<M> un;
    StateVectorArray<N> xn;
    for (int i = 0; i <= K; i++)
    {
        if (i < K) un.push_back(ControlVector<M>(symMat<M>("un" + S(i))));
        xn.push_back(StateVector<N>(symMat<N>("xn" + S(i))));
    }
    auto chk = [&](int n, const auto& lo, const auto& up, const auto& I, const auto& nom, const std::string& l) {
        for (int i = 0; i < n; i++)
        {
            int idx = n == 1 ? which : i;
            assertTrue(I(i) == idx, l + "-idx");
            assertEq(lo(i), (n == 1 ? lb1(i) : lb2(i)) - nom(idx), l + "-lb");
            assertEq(up(i), (n == 1 ? ub1(i) : ub2(i)) - nom(idx), l + "-ub");
        }
    };
    int n = 1 + symChoice("n", 2);
    const Eigen::MatrixXd &lb = n == 1 ? lb1 : lb2, &ub = n == 1 ? ub1 : ub2;
    const Eigen::VectorXi& sp = n == 1 ? sp1 : sp2;
    bool u = false, x = false, g = false;
    if (kind == 0)
    {
        p.setInputBoxConstraints(n, lb, ub, sp, un);
        for (int k = 0; k < K; k++)
        {
            assertTrue(p.nbu_[k] == n, "nbu");
            chk(n, p.u_lb_[k], p.u_ub_[k], p.u_I_[k], un[k], "inputbox");
        }
        u = true;
    }
    else if (kind == 1)
    {
        p.setIntermediateStateBoxConstraints(n, lb, ub, sp, xn);
        for (int k = 0; k < K; k++)
        {
            assertTrue(p.nbx_[k] == n, "nbx");
            chk(n, p.x_lb_[k], p.x_ub_[k], p.x_I_[k], xn[k], "statebox");
        }
        assertTrue(p.nbx_[K] == 0, "nbx-terminal");
        x = true;
    }
    else if (kind == 2)
    {
        p.setTerminalBoxConstraints(n, lb, ub, sp, xn[K]);
        assertTrue(p.nbx_[K] == n && p.nbx_[0] == 0, "nbx-term");
        chk(n, p.x_lb_[K], p.x_ub_[K], p.x_I_[K], xn[K], "terminalbox");
        x = true;
    }
    else if (kind == 3)
    {
        Eigen::MatrixXd C = symMat<1, N>("C"), D = symMat<1, M>("D");
        p.setGeneralConstraints(lb1, ub1, C, D);
        for (int k = 0; k <= K; k++)
        {
            assertTrue(p.ng_[k] == 1, "ng");
            assertEqM(p.C_[k], C, "gen-C");
            assertEqM(p.D_[k], D, "gen-D");
            assertEqM(p.d_lb_[k], lb1, "gen-lb");
            assertEqM(p.d_ub_[k], ub1, "gen-ub");
        }
        g = true;
    }
    else if (kind == 4)
    {
        Eigen::VectorXi bad(1);
        bad << 2;
        assertTrue(throws([&] { p.setInputBoxConstraint(0, 1, lb2, ub2, sp1, un[0]); }), "throw-size");
        assertTrue(throws([&] { p.setInputBoxConstraint(0, 1, lb1, ub2, sp1, un[0]); }), "throw-size2");
        assertTrue(throws([&] { p.setInputBoxConstraint(0, 1, lb1, ub1, bad, un[0]); }), "throw-sparsity");
        assertTrue(throws([&] { p.setInputBoxConstraint(K, 1, lb1, ub1, sp1, un[0]); }), "throw-index");
        assertTrue(throws([&] { p.setIntermediateStateBoxConstraint(0, 1, lb2, ub2, sp1, xn[0]); }), "throw-xsize");
        assertTrue(throws([&] { p.setIntermediateStateBoxConstraint(0, 1, lb1, ub1, bad, xn[0]); }), "throw-xsparsity");
        assertTrue(throws([&] { p.setIntermediateStateBoxConstraint(K, 1, lb1, ub1, sp1, xn[0]); }), "throw-xindex");
        assertTrue(throws([&] { p.setTerminalBoxConstraints(1, lb2, ub2, sp1, xn[0]); }), "throw-tsize");
        assertTrue(throws([&] { p.setTerminalBoxConstraints(1, lb1, ub1, bad, xn[0]); }), "throw-tsparsity");
        Eigen::MatrixXd C = Eigen::MatrixXd::Zero(1, N), D = Eigen::MatrixXd::Zero(2, M);
        assertTrue(throws([&] { p.setGeneralConstraints(lb1, ub1, C, D); }), "throw-gsize");
        assertTrue(!p.isConstrained(), "throw-unchanged");
    }
    else if (kind == 5)
    {
        p.setInputBoxConstraints(n, lb, ub, sp, un);
        p.setIntermediateStateBoxConstraints(n, lb, ub, sp, xn);
        p.setZero(1);
        assertTrue(p.isGeneralConstrained() && !p.isInputBoxConstrained() && !p.isStateBoxConstrained(), "setZero-gen");
        p.setZero();
        assertTrue(!p.isConstrained(), "setZero");
    }
    else
    {
        // time-invariant problem
        DiscreteLTISystem<N, M> sys(symMat<N, N>("A"), symMat<N, M>("B"));
        CostFunctionQuadraticSimple<N, M> cost(symMat<N, N>("Q"), symMat<M, M>("R"), symMat<N>("xd"), symMat<M>("ud"), symMat<N>("xf"), symMat<N, N>("Qf"));
        StateVector<N> off(symMat<N>("off"));
        double dt = symPos("dt");
        for (int k = 0; k < K; k++)
        {
            p.A_[k].setConstant(5);
            p.rv_[k].setConstant(7);
        }
        p.setFromTimeInvariantLinearQuadraticProblem(sys, cost, off, dt);
        StateVector<N> x0 = StateVector<N>::Zero();
        ControlVector<M> u0 = ControlVector<M>::Zero();
        cost.setCurrentStateAndControl(x0, u0, 0);
        for (int k = 0; k < K; k++)
        {
            assertEqM(p.A_[k], (symMat<N, N>("A")), "ti-A");
            assertEqM(p.B_[k], (symMat<N, M>("B")), "ti-B");
            assertEqM(p.b_[k], off, "ti-b");
            assertEqM(p.Q_[k], Eigen::Matrix2d(dt * cost.stateSecondDerivativeIntermediate()), "ti-Q");
            assertEqM(p.R_[k], Eigen::Matrix2d(dt * cost.controlSecondDerivativeIntermediate()), "ti-R");
            assertEqM(p.P_[k], Eigen::Matrix2d(dt * cost.stateControlDerivativeIntermediate()), "ti-P");
            assertEqM(p.qv_[k], Eigen::Vector2d(dt * cost.stateDerivativeIntermediate()), "ti-q");
            assertEqM(p.rv_[k], Eigen::Vector2d(dt * cost.controlDerivativeIntermediate()), "ti-r");
        }
        assertEqM(p.Q_[K], Eigen::Matrix2d(cost.stateSecondDerivativeTerminal()), "ti-Qf");
        assertEqM(p.qv_[K], Eigen::Vector2d(cost.stateDerivativeTerminal()), "ti-qf");
    }
    assertTrue(p.isInputBoxConstrained() == u && p.isStateBoxConstrained() == x && p.isGeneralConstrained() == g, "kinds");
    assertTrue(p.isConstrained() == (u || x || g), "constrained");
    if (u || x || g)
    {
        auto pp = std::make_shared<P>(p);
        GNRiccatiSolver<N, M> s;
        assertTrue(throws([&] { s.setProblem(pp); }), "riccati-throws-constrained");
        p.changeNumStages(K + 1);
        p.setZero();
        assertTrue(p.getNumberOfStages() == K + 1 && !p.isConstrained() && (int)p.A_.size() == K + 1 && (int)p.Q_.size() == K + 2, "resize");
    }
}
void sym_main()
{
    switch (symChoice("test", 8))
    {
        case 0: run<2, 1>(2, true, symChoice("way", 3), "r212"); break;
        case 1: run<1, 2>(1, true, 0, "r121"); break;
        case 2: run<1, 1>(3, true, 0, "r113"); break;
        case 3: run<2, 2>(1, true, 0, "r221"); break;
        case 4: run<2, 1>(2, false, 0, "e212"); break;
        case 5: ctors<1, 1>(); break;
        case 6: regularised(); break;
        case 7: problem(); break;
    }
}
