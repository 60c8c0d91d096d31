// BOUNDS: 2 states, 1 control, 2 stages (line search: 1 state, 1 stage), algorithms GNMS, SS_OL; sparse and full state boxes, input box, arbitrary 2-row intermediate and 1-row terminal general constraint; two iterations; constraints set before, after the first iteration, or before the horizon grows or shrinks; bounds, guess, sub-problem solution, dynamics, cost and constraint functions symbolic. The constrained QP solver itself (HPIPM, not installed) is replaced by an arbitrary solution.
// SYM: budget=300 abs=1
#include "ocommon.h"
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd MX;
template <size_t N, size_t M>
struct UFCon : public ConstraintBase<N, M>
{
    std::string g;
    int rows;
    bool term;
    UFCon(const std::string& n, int r, bool t, const V& lb, const V& ub) : g(n), rows(r), term(t)
    {
        this->lb_ = lb;
        this->ub_ = ub;
    }
    UFCon* clone() const override { return new UFCon(*this); }
    size_t getConstraintSize() const override { return rows; }
    std::vector<double> arg(const StateVector<N>& x, const ControlVector<M>& u, double t) const { return catT(x, u, t); }
    V evaluate(const StateVector<N>& x, const ControlVector<M>& u, const double t) override
    {
        V r(rows);
        for (int i = 0; i < rows; i++) r(i) = symUF(g + ::S(i), arg(x, u, t));
        return r;
    }
    MX jacobianState(const StateVector<N>& x, const ControlVector<M>& u, const double t) override
    {
        MX r(rows, N);
        for (int i = 0; i < rows; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symDUF(g + ::S(i), j, arg(x, u, t));
        return r;
    }
    MX jacobianInput(const StateVector<N>& x, const ControlVector<M>& u, const double t) override
    {
        MX r(rows, M);
        for (int i = 0; i < rows; i++)
            for (size_t j = 0; j < M; j++) r(i, j) = symDUF(g + ::S(i), N + j, arg(x, u, t));
        return r;
    }
};
// sub-problem solver returning an arbitrary step; keeps the problem it was given
template <size_t N, size_t M>
struct AnySolver : public LQOCSolver<N, M>
{
    typedef LQOCProblem<N, M> Prob;
    std::shared_ptr<Prob> seen;
    std::string nm = "s";
    void configure(const NLOptConSettings&) override {}
    void initializeAndAllocate() override {}
    void solve() override { go(); }
    void solveSingleStage(int) override {}
    void computeStatesAndControls() override { go(); }
    void computeFeedbackMatrices() override {}
    void compute_lv() override {}
    void setProblemImpl(std::shared_ptr<Prob> p) override { seen = p; }
    void go()
    {
        int K = seen->getNumberOfStages();
        this->x_sol_.resize(K + 1);
        this->u_sol_.resize(K);
        this->L_.resize(K);
        for (int k = 0; k <= K; k++)
            this->x_sol_[k] = k ? StateVector<N>(symMat<N>(nm + "dx" + ::S(k))) : StateVector<N>(StateVector<N>::Zero());
        for (int k = 0; k < K; k++)
        {
            this->u_sol_[k] = symMat<M>(nm + "du" + ::S(k));
            this->L_[k].setZero();
        }
    }
};
// access to the protected sub-problem solver and trajectories of the backend
template <typename Tag, typename Tag::type P>
struct Rob
{
    friend typename Tag::type get(Tag) { return P; }
};
#define EXPOSE(NAME, T, MEM)                                          \
    template <size_t N, size_t M>                                     \
    struct NAME                                                       \
    {                                                                 \
        typedef T NLOCBackendBase<N, M, 0, 1, double, false>::*type;  \
        friend type get(NAME);                                        \
    };                                                                \
    template struct Rob<NAME<2, 1>, &NLOCBackendBase<2, 1, 0, 1, double, false>::MEM>; \
    template struct Rob<NAME<1, 1>, &NLOCBackendBase<1, 1, 0, 1, double, false>::MEM>;
#define SOLVER_T std::shared_ptr<LQOCSolver<N, M, double>>
EXPOSE(SolverTag, SOLVER_T, lqocSolver_)
template <size_t N, size_t M>
using Bk = NLOCBackendBase<N, M, 0, 1, double, false>;
template <size_t N, size_t M>
struct Setup
{
    typedef ConstraintContainerAnalytical<N, M> CC;
    typedef NLOCAlgorithm<N, M, 0, 1, double, false> Alg;
    int K;
    double dt;
    std::shared_ptr<UFDiscSys<N, M>> sys;
    std::shared_ptr<UFCost<N, M>> cost;
    std::shared_ptr<Bk<N, M>> bk;
    std::shared_ptr<AnySolver<N, M>> any;
    std::shared_ptr<Alg> alg;
    std::shared_ptr<CC> ib, sb, gc;
    StateVectorArray<N> x;
    ControlVectorArray<M> u;
    // K0: number of stages of the problem at construction (changed to K later by horizon())
    Setup(int K_, NLOptConSettings st, bool ss, int K0 = 0) : K(K_), dt(st.dt)
    {
        sys = std::make_shared<UFDiscSys<N, M>>();
        cost = std::make_shared<UFCost<N, M>>();
        StateVector<N> x0(symMat<N>("x0"));
        DiscreteOptConProblem<N, M> prob(K0 ? K0 : K, x0, sys, cost, std::make_shared<UFDiscLin<N, M>>());
        bk.reset(new NLOCBackendST<N, M, 0, 1, double, false>(prob, st));
        any = std::make_shared<AnySolver<N, M>>();
        (*bk).*get(SolverTag<N, M>()) = any;
        if (ss)
            alg.reset(new SingleShooting<N, M, 0, 1, double, false>(bk, st));
        else
            alg.reset(new MultipleShooting<N, M, 0, 1, double, false>(bk, st));
        (*bk).*get(SolverTag<N, M>()) = any;
        for (int k = 0; k <= K; k++) x.push_back(k ? StateVector<N>(symMat<N>("x" + ::S(k))) : x0);
        for (int k = 0; k < K; k++) u.push_back(ControlVector<M>(symMat<M>("u" + ::S(k))));
        if (!K0) guess();
    }
    void guess()
    {
        FeedbackArray<N, M> L(K, FeedbackMatrix<N, M>::Zero());
        bk->setInitialGuess(StateFeedbackController<N, M>(x, u, L, dt));
    }
    void roll(bool ss)
    {
        for (int k = 0; k < K; k++)
            if (ss || k == K - 1) x[k + 1] = sys->F(x[k], k, u[k]);
    }
};
V vec(const std::string& n, int k)
{
    V r(k);
    for (int i = 0; i < k; i++) r(i) = symReal(n + S(i));
    return r;
}
std::pair<V, V> bnd(const std::string& n, int k)
{
    V lo = vec(n + "lo", k), hi = vec(n + "hi", k);
    for (int i = 0; i < k; i++) sym_assume_le(lo(i), hi(i));
    return {lo, hi};
}
// the LQ problem carries the constraints relative to the current trajectory
void linearised()
{
    const int N = 2, M = 1, K = 2;
    bool ss = symChoice("single", 2);
    double dt = symIn("dt", 0.01, 10);
    NLOptConSettings st = nlocSettings(ss ? 3 : 1, dt, 1);
    st.lineSearchSettings.type = LineSearchSettings::TYPE::NONE;
    st.min_cost_improvement = -1;  // convergence is decided elsewhere (P18, P19)
    int when = symChoice("when", 4), late = when == 1, K0 = when == 2 ? 1 : when == 3 ? 3 : 0;
    Setup<N, M> s(K, st, ss, K0);
    // one kind of constraint at a time
    int kind = symChoice("kind", 7);
    bool inbox = kind == 0, tbox = kind == 4;
    int pat = kind >= 1 && kind <= 3 ? kind : 0, general = kind == 5 ? 0 : kind == 6 ? 1 : -1;
    auto ib = bnd("ib", 1), sb = bnd("sb", pat == 3 ? 2 : 1), tb = bnd("tb", 2), g = bnd("g", 2), t = bnd("t", 1);
    typedef Setup<N, M>::CC CC;
    s.ib.reset(new CC());
    s.ib->addIntermediateConstraint(std::make_shared<ControlInputConstraint<N, M>>(ControlVector<M>(ib.first), ControlVector<M>(ib.second)), false);
    s.ib->initialize();
    s.sb.reset(new CC());
    if (pat)
    {
        Eigen::VectorXi sp(2);
        sp << (pat & 1), (pat >> 1);
        s.sb->addIntermediateConstraint(std::make_shared<StateConstraint<N, M>>(sb.first, sb.second, sp), false);
    }
    if (tbox) s.sb->addTerminalConstraint(std::make_shared<StateConstraint<N, M>>(StateVector<N>(tb.first), StateVector<N>(tb.second)), false);
    s.sb->initialize();
    s.gc.reset(new CC());
    auto ci = std::make_shared<UFCon<N, M>>("g", 2, false, g.first, g.second);
    auto ct = std::make_shared<UFCon<N, M>>("t", 1, true, t.first, t.second);
    if (general == 0) s.gc->addIntermediateConstraint(ci, false);
    if (general == 1) s.gc->addTerminalConstraint(ct, false);
    s.gc->initialize();
    auto set = [&]() {
        if (inbox) s.bk->changeInputBoxConstraints(s.ib);
        if (pat || tbox) s.bk->changeStateBoxConstraints(s.sb);
        if (general >= 0) s.bk->changeGeneralConstraints(s.gc);
    };
    if (!late) set();
    if (K0)
    {
        // constraints set before the horizon changes
        s.bk->changeTimeHorizon(K);
        s.guess();
    }
    // (two-row constraints: one constrained iteration; the reported violations split cases)
    int its = K0 || ((kind == 3 || kind == 5) && !late) ? 1 : 2;
    for (int it = 0; it < its; it++)
    {
        if (late && it) set();
        s.roll(ss);
        s.any->nm = "s" + ::S(it);
        s.alg->runIteration();
        LQOCProblem<N, M>& p = *s.any->seen;
        std::string l = "it" + ::S(it) + "-";
        if (!late || it)
        {
            for (int k = 0; k < K; k++)
            {
                assertTrue(p.nbu_[k] == (inbox ? 1 : 0), l + "nbu");
                if (inbox && p.nbu_[k] == 1)
                {
                    assertTrue(p.u_I_[k](0) == 0, l + "u-idx");
                    assertEq(p.u_lb_[k](0), ib.first(0) - s.u[k](0), l + "u-lb");
                    assertEq(p.u_ub_[k](0), ib.second(0) - s.u[k](0), l + "u-ub");
                }
                int nb = pat == 3 ? 2 : pat ? 1 : 0;
                assertTrue(p.nbx_[k] == nb, l + "nbx");
                for (int i = 0; i < nb && p.nbx_[k] == nb; i++)
                {
                    int j = pat == 3 ? i : pat - 1;
                    assertTrue(p.x_I_[k](i) == j, l + "x-idx");
                    assertEq(p.x_lb_[k](i), sb.first(i) - s.x[k](j), l + "x-lb");
                    assertEq(p.x_ub_[k](i), sb.second(i) - s.x[k](j), l + "x-ub");
                }
                assertTrue(p.ng_[k] == (general == 0 ? 2 : 0), l + "ng");
                if (general == 0 && p.ng_[k] == 2)
                {
                    assertEqM(MX(p.C_[k]), MX(ci->jacobianState(s.x[k], s.u[k], k * dt)), l + "C" + ::S(k));
                    assertEqM(MX(p.D_[k]), MX(ci->jacobianInput(s.x[k], s.u[k], k * dt)), l + "D" + ::S(k));
                    V e = ci->evaluate(s.x[k], s.u[k], k * dt);
                    assertEqM(V(p.d_lb_[k]), V(g.first - e), l + "d-lb" + ::S(k));
                    assertEqM(V(p.d_ub_[k]), V(g.second - e), l + "d-ub" + ::S(k));
                }
            }
            assertTrue(p.nbx_[K] == (tbox ? 2 : 0), l + "nbx-terminal");
            if (tbox && p.nbx_[K] == 2)
                for (int i = 0; i < 2; i++)
                {
                    assertTrue(p.x_I_[K](i) == i, l + "x-idx-terminal");
                    assertEq(p.x_lb_[K](i), tb.first(i) - s.x[K](i), l + "x-lb-terminal");
                    assertEq(p.x_ub_[K](i), tb.second(i) - s.x[K](i), l + "x-ub-terminal");
                }
            assertTrue(p.ng_[K] == (general == 1 ? 1 : 0), l + "ng-terminal");
            if (general == 1 && p.ng_[K] == 1)
            {
                ControlVector<M> z = ControlVector<M>::Zero();
                assertEqM(MX(p.C_[K]), MX(ct->jacobianState(s.x[K], z, K * dt)), l + "C-terminal");
                V e = ct->evaluate(s.x[K], z, K * dt);
                assertEqM(V(p.d_lb_[K]), V(t.first - e), l + "d-lb-terminal");
                assertEqM(V(p.d_ub_[K]), V(t.second - e), l + "d-ub-terminal");
            }
            assertTrue(p.isConstrained() && p.isInputBoxConstrained() == inbox && p.isStateBoxConstrained() == (pat || tbox) && p.isGeneralConstrained() == (general >= 0), l + "is-constrained");
            // a solver for unconstrained problems refuses it
            GNRiccatiSolver<N, M> un;
            auto q = std::make_shared<LQOCProblem<N, M>>(p);
            assertTrue(throws([&] { un.setProblem(q); }), l + "unconstrained-solver-refuses");
        }
        for (int k = 0; k < K; k++) s.u[k] = ControlVector<M>(s.u[k] + s.any->getSolutionControl()[k]);
        for (int k = 0; k <= K; k++) s.x[k] = StateVector<N>(s.x[k] + s.any->getSolutionState()[k]);
    }
}
double viol(double v, double lo, double hi) { return (v < lo ? lo - v : 0.0) + (v > hi ? v - hi : 0.0); }
// the merit decides on the step, including constraint violations of both trajectories
void merit()
{
    const int N = 1, M = 1, K = 1;
    bool ss = symChoice("single", 2);
    double dt = symIn("dt", 0.01, 10);
    NLOptConSettings st = nlocSettings(ss ? 3 : 1, dt, 1);
    st.lineSearchSettings.type = LineSearchSettings::TYPE::SIMPLE;
    st.lineSearchSettings.maxIterations = 1;
    st.lineSearchSettings.alpha_0 = 1.0;
    st.meritFunctionRho = symPos("rho");
    st.meritFunctionRhoConstraints = symPos("rhoc");
    Setup<N, M> s(K, st, ss);
    typedef Setup<N, M>::CC CC;
    int which = symChoice("which", 4);
    auto b = bnd("b", 1);
    double lo = b.first(0), hi = b.second(0);
    auto cg = std::make_shared<UFCon<N, M>>("g", 1, false, b.first, b.second);
    std::shared_ptr<CC> c(new CC());
    if (which == 0) c->addIntermediateConstraint(std::make_shared<ControlInputConstraint<N, M>>(ControlVector<M>(b.first), ControlVector<M>(b.second)), false);
    if (which == 1) c->addTerminalConstraint(std::make_shared<StateConstraint<N, M>>(StateVector<N>(b.first), StateVector<N>(b.second)), false);
    if (which == 2) c->addIntermediateConstraint(cg, false);
    if (which == 3) c->addTerminalConstraint(cg, false);
    c->initialize();
    if (which == 0) s.bk->changeInputBoxConstraints(c);
    if (which == 1) s.bk->changeStateBoxConstraints(c);
    if (which >= 2) s.bk->changeGeneralConstraints(c);
    auto err = [&](double x0, double u, double x1) {
        StateVector<N> a, e;
        ControlVector<M> w;
        a(0) = x0;
        e(0) = x1;
        w(0) = u;
        if (which == 0) return dt * viol(u, lo, hi);
        if (which == 1) return viol(x1, lo, hi);
        if (which == 2) return dt * viol(cg->evaluate(a, w, 0)(0), lo, hi);
        return viol(cg->evaluate(e, ControlVector<M>(ControlVector<M>::Zero()), dt)(0), lo, hi);
    };
    auto mer = [&](const StateVector<N>& x0, const ControlVector<M>& u) {
        StateVector<N> x1 = s.sys->F(x0, 0, u);
        return dt * s.cost->L(x0, u, 0) + s.cost->F(x1, dt) + st.meritFunctionRhoConstraints * err(x0(0), u(0), x1(0));
    };
    for (int it = 0; it < (THOROUGH ? 2 : 1); it++)
    {
        s.any->nm = "s" + ::S(it);
        double m0 = mer(s.x[0], s.u[0]);
        sym_assume_ne(m0, 0);
        s.alg->runIteration();
        ControlVector<M> un = ControlVector<M>(s.u[0] + s.any->getSolutionControl()[0]);
        double m1 = mer(s.x[0], un);
        bool accept = m1 < m0;
        std::string l = std::string(accept ? "accepted" : "rejected") + ::S(it);
        if (accept) s.u[0] = un;
        assertEq(s.bk->getControlTrajectory().getDataArray()[0](0), s.u[0](0), l + "-u");
        assertEqM(s.bk->getStateTrajectory().getDataArray()[1], s.sys->F(s.x[0], 0, s.u[0]), l + "-x");
    }
}
void sym_main()
{
    if (symChoice("case", 2))
        merit();
    else
        linearised();
}
