// BOUNDS: IPOPT interface over an arbitrary NLP with 3 variables and 3 constraints in 2 groups (arbitrary functions, sparse Jacobian and Hessian), two evaluation points in every order of callbacks, one or two solves with arbitrary optimiser results; DMS solver with 2 shots, 1 state x 1 control (Euler), all values symbolic; IPOPT itself is left open (a stand-in with its interface that returns arbitrary results)
// SYM: budget=250
#define BUILD_WITH_IPOPT_SUPPORT
#include "dcommon.h"
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXi VI;
using namespace Ipopt;
static const int n = 3;
std::vector<double> args(const V& x) { return std::vector<double>(x.data(), x.data() + x.size()); }
struct Con : public ct::optcon::tpl::DiscreteConstraintBase<double>
{
    std::string nm;
    std::shared_ptr<ct::optcon::tpl::OptVector<double>> w;
    std::vector<std::pair<int, int>> pat, hpat;
    V lb, ub;
    int m;
    V eval() override
    {
        V r(m);
        for (int i = 0; i < m; i++) r(i) = symUF(nm + ::S(i), args(w->getOptimizationVars()));
        return r;
    }
    V evalSparseJacobian() override
    {
        V r(pat.size());
        for (size_t i = 0; i < pat.size(); i++) r(i) = symUF(nm + "j" + ::S(i), args(w->getOptimizationVars()));
        return r;
    }
    size_t getConstraintSize() override { return m; }
    size_t getNumNonZerosJacobian() override { return pat.size(); }
    void genSparsityPattern(VI& r, VI& c) override
    {
        for (size_t i = 0; i < pat.size(); i++)
        {
            r(i) = pat[i].first;
            c(i) = pat[i].second;
        }
    }
    V getLowerBound() override { return lb; }
    V getUpperBound() override { return ub; }
    void genSparsityPatternHessian(VI& r, VI& c) override
    {
        r.resize(hpat.size());
        c.resize(hpat.size());
        for (size_t i = 0; i < hpat.size(); i++)
        {
            r(i) = hpat[i].first;
            c(i) = hpat[i].second;
        }
    }
    double hess(const V& x, int k, int i) const { return symUF(nm + "h" + ::S(k) + ::S(i), args(x)); }
    void sparseHessianValues(const V& x, const V& l, V& h) override
    {
        h.resize(hpat.size());
        for (size_t i = 0; i < hpat.size(); i++)
        {
            h(i) = 0;
            for (int k = 0; k < m; k++) h(i) = h(i) + l(k) * hess(x, k, i);
        }
    }
};
struct Cost : public ct::optcon::tpl::DiscreteCostEvaluatorBase<double>
{
    std::shared_ptr<ct::optcon::tpl::OptVector<double>> w;
    std::vector<std::pair<int, int>> hpat;
    double eval() override { return symUF("c", args(w->getOptimizationVars())); }
    void evalGradient(size_t len, Eigen::Map<V>& g) override
    {
        for (size_t i = 0; i < len; i++) g(i) = symUF("cg" + ::S(i), args(w->getOptimizationVars()));
    }
    void getSparsityPatternHessian(VI& r, VI& c) override
    {
        r.resize(hpat.size());
        c.resize(hpat.size());
        for (size_t i = 0; i < hpat.size(); i++)
        {
            r(i) = hpat[i].first;
            c(i) = hpat[i].second;
        }
    }
    void sparseHessianValues(const V& x, const V& l, V& h) override
    {
        h.resize(hpat.size());
        for (size_t i = 0; i < hpat.size(); i++) h(i) = l(0) * symUF("ch" + ::S(i), args(x));
    }
};
struct Cons : public ct::optcon::tpl::DiscreteConstraintContainerBase<double>
{
    void prepareEvaluation() override {}
    void prepareJacobianEvaluation() override {}
    void add(std::shared_ptr<Con> c) { constraints_.push_back(c); }
};
struct Problem : public ct::optcon::tpl::Nlp<double>
{
    std::shared_ptr<Con> a, b;
    std::shared_ptr<Cost> c;
    V start, xl, xu;
    Problem()
    {
        auto w = std::make_shared<ct::optcon::tpl::OptVector<double>>(n);
        optVariables_ = w;
        c = std::make_shared<Cost>();
        c->w = w;
        c->hpat = {{0, 0}, {2, 1}, {1, 1}};
        costEvaluator_ = c;
        a = std::make_shared<Con>();
        a->nm = "a";
        a->m = 2;
        a->pat = {{0, 0}, {1, 2}, {0, 1}};
        a->hpat = {{1, 0}, {1, 1}, {2, 2}};
        b = std::make_shared<Con>();
        b->nm = "b";
        b->m = 1;
        b->pat = {{0, 2}, {0, 1}};
        b->hpat = {{2, 1}, {1, 0}};
        a->w = b->w = w;
        a->lb = symMat<2>("alb");
        a->ub = symMat<2>("aub");
        b->lb = symMat<1>("blb");
        b->ub = symMat<1>("bub");
        auto k = std::make_shared<Cons>();
        k->add(a);
        k->add(b);
        constraints_ = k;
        optVariables_->resizeConstraintVars(3);
        start = symMat<3>("start");
        xl = symMat<3>("xl");
        xu = symMat<3>("xu");
        w->setInitialGuess(start);
        w->setBounds(xl, xu);
    }
    V solution() { return optVariables_->getOptimizationVars(); }
    void updateProblem() override {}
};
// checks every callback of the optimiser at x (new_x as IPOPT sets it: only the first callback for a point)
struct Probe
{
    Problem& p;
    TNLP& t;
    bool exact;
    Index N, M, nj, nh;
    Probe(Problem& p_, TNLP& t_, bool e) : p(p_), t(t_), exact(e), nh(0)
    {
        TNLP::IndexStyleEnum st = TNLP::FORTRAN_STYLE;
        assertTrue(t.get_nlp_info(N, M, nj, nh, st), "info");
        assertTrue(N == n && M == 3 && nj == 5 && st == TNLP::C_STYLE, "dimensions");
        assertTrue(!exact || nh == 5, "hessian-size");
    }
    void bounds()
    {
        V xl(n), xu(n), gl(3), gu(3);
        assertTrue(t.get_bounds_info(n, xl.data(), xu.data(), 3, gl.data(), gu.data()), "bounds");
        assertEqM(xl, p.xl, "lower-bounds");
        assertEqM(xu, p.xu, "upper-bounds");
        for (int i = 0; i < 3; i++)
        {
            assertEq(gl(i), i < 2 ? p.a->lb(i) : p.b->lb(0), "constraint-lower");
            assertEq(gu(i), i < 2 ? p.a->ub(i) : p.b->ub(0), "constraint-upper");
        }
    }
    void start(const V& x0, const V& zl, const V& zu, const V& la)
    {
        V x(n), a(n), b(n), l(3), keep = symMat<3>("keep");
        assertTrue(t.get_starting_point(n, true, x.data(), true, a.data(), b.data(), 3, true, l.data()), "start");
        assertEqM(x, x0, "start-x");
        assertEqM(a, zl, "start-zl");
        assertEqM(b, zu, "start-zu");
        assertEqM(l, la, "start-lambda");
        // only what is asked for is written
        V y = keep, c = keep, d = keep, e = keep;
        assertTrue(t.get_starting_point(n, false, y.data(), false, c.data(), d.data(), 3, false, e.data()), "start-none");
        for (V* v : {&y, &c, &d, &e}) assertEqM(*v, keep, "start-untouched");
    }
    void eval(int what, const V& x, bool fresh, const V& la, double of)
    {
        std::vector<double> ax = args(x);
        if (what == 0)
        {
            double f = 0;
            assertTrue(t.eval_f(n, x.data(), fresh, f), "f");
            assertEq(f, symUF("c", ax), "f-value");
        }
        if (what == 1)
        {
            V g(n);
            assertTrue(t.eval_grad_f(n, x.data(), fresh, g.data()), "grad");
            for (int i = 0; i < n; i++) assertEq(g(i), symUF("cg" + ::S(i), ax), "grad-value");
        }
        if (what == 2)
        {
            V g(3);
            assertTrue(t.eval_g(n, x.data(), fresh, 3, g.data()), "g");
            for (int i = 0; i < 3; i++) assertEq(g(i), i < 2 ? symUF("a" + ::S(i), ax) : symUF("b0", ax), "g-value");
        }
        if (what == 3)
        {
            V j(5);
            VI r(5), c(5);
            assertTrue(t.eval_jac_g(n, nullptr, false, 3, 5, r.data(), c.data(), nullptr), "jac-pattern");
            assertTrue(t.eval_jac_g(n, x.data(), fresh, 3, 5, nullptr, nullptr, j.data()), "jac");
            MX J = MX::Zero(3, n), R = MX::Zero(3, n);
            for (int i = 0; i < 5; i++)
            {
                bool ok = r(i) >= 0 && r(i) < 3 && c(i) >= 0 && c(i) < n;
                assertTrue(ok, "jac-range");
                if (ok) J(r(i), c(i)) = J(r(i), c(i)) + j(i);
            }
            for (int i = 0; i < 3; i++) R(p.a->pat[i].first, p.a->pat[i].second) = symUF("aj" + ::S(i), ax);
            for (int i = 0; i < 2; i++) R(2, p.b->pat[i].second) = symUF("bj" + ::S(i), ax);
            assertEqM(J, R, "jac-value");
        }
        if (what == 4 && nh > 0)
        {
            V h(nh);
            VI r(nh), c(nh);
            assertTrue(t.eval_h(n, nullptr, false, of, 3, nullptr, false, nh, r.data(), c.data(), nullptr), "hessian-pattern");
            assertTrue(t.eval_h(n, x.data(), fresh, of, 3, la.data(), true, nh, nullptr, nullptr, h.data()), "hessian");
            MX H = MX::Zero(n, n), R = MX::Zero(n, n);
            for (int i = 0; i < nh; i++)
            {
                bool ok = r(i) >= 0 && r(i) < n && c(i) >= 0 && c(i) <= r(i);
                assertTrue(ok, "hessian-lower-triangle");
                if (ok) H(r(i), c(i)) = H(r(i), c(i)) + h(i);
            }
            auto add = [&](const std::pair<int, int>& e, double v) { R(e.first, e.second) = R(e.first, e.second) + v; };
            for (int i = 0; i < 3; i++) add(p.c->hpat[i], of * symUF("ch" + ::S(i), ax));
            for (int i = 0; i < 3; i++) add(p.a->hpat[i], la(0) * p.a->hess(x, 0, i) + la(1) * p.a->hess(x, 1, i));
            for (int i = 0; i < 2; i++) add(p.b->hpat[i], la(2) * p.b->hess(x, 0, i));
            assertEqM(H, R, "hessian-value");
        }
    }
};
void checkOptions(OptionsList& o, const IpoptSettings& s)
{
    assertTrue(o.num["tol"] == s.tol_ && o.num["constr_viol_tol"] == s.constr_viol_tol_, "option-tolerances");
    assertTrue(o.in["max_iter"] == s.max_iter_, "option-iterations");
    assertTrue(o.str["hessian_approximation"] == s.hessian_approximation_, "option-hessian");
    assertTrue(o.str["linear_solver"] == s.linear_solver_ && o.str["derivative_test"] == s.derivativeTest_, "option-strings");
}
void generic()
{
    auto p = std::make_shared<Problem>();
    NlpSolverSettings s;
    s.solverType_ = NlpSolverType::IPOPT;
    bool exact = symChoice("exact", 2), twice = symChoice("twice", 2);
    int first = symChoice("first", 5), st = symChoice("status", 4);
    s.ipoptSettings_.hessian_approximation_ = exact ? "exact" : "limited-memory";
    s.ipoptSettings_.printLevel_ = 0;
    s.ipoptSettings_.tol_ = 0.125;
    s.ipoptSettings_.max_iter_ = 7;
    ct::optcon::tpl::IpoptSolver<double> solver(p, s);
    V x1 = symMat<3>("xa"), x2 = symMat<3>("xb"), la = symMat<3>("la"), xs = symMat<3>("xs"), zl = symMat<3>("zl"), zu = symMat<3>("zu"), ls = symMat<3>("ls");
    double of = symReal("of");
    V z0 = V::Zero(n), wzl = z0, wzu = z0, wla = z0;
    ApplicationReturnStatus sts[4] = {Solve_Succeeded, Solved_To_Acceptable_Level, Maximum_Iterations_Exceeded, Infeasible_Problem_Detected};
    int calls = 0;
    IpoptApplication::optimizer() = [&](TNLP& t, OptionsList& o) {
        calls++;
        checkOptions(o, s.ipoptSettings_);
        Probe q(*p, t, exact);
        q.bounds();
        q.start(p->start, wzl, wzu, wla);
        // every callback at two points, the first one carrying the new point
        for (int k = 0; k < 5; k++) q.eval((first + k) % 5, x1, k == 0 || (k == 1 && first == 4 && !exact), la, of);
        for (int k = 0; k < 5; k++) q.eval((first + 4 - k + 1) % 5, x2, k == 0 || (k == 1 && (first + 5) % 5 == 4 && !exact), ls, of);
        t.finalize_solution(SUCCESS, n, xs.data(), zl.data(), zu.data(), 3, z0.data(), ls.data(), of, nullptr, nullptr);
        return sts[st];
    };
    bool ok = solver.solve();
    assertTrue(calls == 1, "optimised-once");
    assertTrue(ok == (st < 2), "reported-success");
    assertEqM(p->solution(), xs, "solution");
    if (twice)
    {
        // reconfigured and warm started with the multipliers of the first solution
        s.ipoptSettings_.linear_solver_ = "ma27";
        s.ipoptSettings_.max_iter_ = 9;
        s.ipoptSettings_.derivativeTest_ = "first-order";
        exact = !exact;
        s.ipoptSettings_.hessian_approximation_ = exact ? "exact" : "limited-memory";
        solver.configure(s);
        wzl = zl;
        wzu = zu;
        wla = ls;
        assertTrue(solver.solve() == (st < 2) && calls == 2, "second-solve");
    }
}
// the DMS solver hands the problem it was given to the optimiser and returns the optimiser's solution
void dms()
{
    typedef StateVector<1> X;
    typedef ControlVector<1> U;
    int change = symChoice("change", 3);
    double h = symPos("h");
    X x0 = symMat<1>("x0");
    int sub = 1;
    Dms<1, 1> d(2, sub, h, false, symChoice("full", 2), false, x0);
    d.s.solverSettings_.solverType_ = NlpSolverType::IPOPT;
    d.s.solverSettings_.ipoptSettings_.printLevel_ = 0;
    ContinuousOptConProblem<1, 1> pb(d.s.T_, x0, std::make_shared<UFCtrlSys<1, 1>>(), std::make_shared<UFCost<1, 1>>(), std::make_shared<UFLin<1, 1>>());
    int con = change == 0 ? symChoice("constraint", 4) : 0;
    double cl = symReal("cl"), cu = symReal("cu");
    if (con)
    {
        sym_assume_le(cl, cu);
        std::shared_ptr<ConstraintContainerAnalytical<1, 1>> cc(new ConstraintContainerAnalytical<1, 1>());
        typedef std::shared_ptr<ConstraintBase<1, 1>> CP;
        U lo, hi;
        lo(0) = cl;
        hi(0) = cu;
        X lx = X(lo), hx = X(hi);
        if (con == 1) cc->addIntermediateConstraint(CP(new ControlInputConstraint<1, 1>(lo, hi)), false);
        if (con == 2) cc->addIntermediateConstraint(CP(new StateConstraint<1, 1>(lx, hx)), false);
        if (con == 3) cc->addTerminalConstraint(CP(new TerminalConstraint<1, 1>(lx)), false);
        cc->initialize();
        if (con == 1) pb.setInputBoxConstraints(cc);
        if (con == 2) pb.setStateBoxConstraints(cc);
        if (con == 3) pb.setGeneralConstraints(cc);
    }
    DmsSolver<1, 1> solver(pb, d.s);
    assertEq(solver.getTimeHorizon(), d.s.T_, "dms-horizon");
    if (change == 1)
    {
        x0 = symMat<1>("x1");
        solver.changeInitialState(x0);
    }
    if (change == 2)
    {
        d.h = h = 2.0 * h;
        sub = d.sub = 1;
        // twice the horizon with the same simulation step: two steps per shot
        d.h = h / 2.0;
        d.sub = 2;
        solver.changeTimeHorizon(2.0 * d.s.T_);
        assertEq(solver.getTimeHorizon(), 2.0 * d.s.T_, "dms-new-horizon");
    }
    DmsPolicy<1, 1> g;
    for (int i = 0; i < 3; i++)
    {
        g.xSolution_.push_back(X(symMat<1>("gx" + ::S(i))));
        g.uSolution_.push_back(U(symMat<1>("gu" + ::S(i))));
    }
    solver.setInitialGuess(g);
    V w = d.fresh("w"), xs(6), z = V::Zero(9);
    for (int i = 0; i < 6; i++) xs(i) = symReal("sol" + ::S(i));
    d.set(w);
    IpoptApplication::optimizer() = [&](TNLP& t, OptionsList&) {
        Index N, M, nj, nh = 0;
        TNLP::IndexStyleEnum st;
        t.get_nlp_info(N, M, nj, nh, st);
        assertTrue(N == 6 && M == 3 + (con == 3 ? 1 : con ? 3 : 0), "dms-dimensions");
        if (N != 6 || M < 3) return Internal_Error;
        V s(6), c(M), lb(M), ub(M), xl(6), xu(6);
        t.get_bounds_info(N, xl.data(), xu.data(), M, lb.data(), ub.data());
        t.get_starting_point(N, true, s.data(), false, nullptr, nullptr, M, false, nullptr);
        for (int i = 0; i < 3; i++)
        {
            assertEq(s(2 * i), i ? g.xSolution_[i](0) : s(0), "dms-start-x");
            assertEq(s(2 * i + 1), g.uSolution_[i](0), "dms-start-u");
        }
        t.eval_g(N, w.data(), true, M, c.data());
        // initial state and continuity, in that order; defects are zero
        assertEq(c(0) - lb(0), w(0) - x0(0), "dms-initial");
        assertEq(c(0) - ub(0), w(0) - x0(0), "dms-initial-upper");
        for (int i = 0; i < 2; i++) assertEqM(V(V::Constant(1, c(1 + i) - lb(1 + i))), V(d.x(i + 1) - d.shot(i)), "dms-continuity");
        for (int i = 3; i < M; i++)
        {
            assertEq(c(i), con == 1 ? d.u(i - 3)(0) : con == 2 ? d.x(i - 3)(0) : d.x(2)(0) - cl, "dms-constraint");
            assertEq(lb(i), con == 3 ? 0.0 : cl, "dms-constraint-lower");
            assertEq(ub(i), con == 3 ? 0.0 : cu, "dms-constraint-upper");
        }
        double f = 0, ref = d.c.F(d.x(2), d.t(2)), l;
        t.eval_f(N, w.data(), false, f);
        if (d.s.costEvaluationType_ == DmsSettings::FULL)
        {
            for (int i = 0; i < 2; i++)
            {
                d.shot(i, &l);
                ref = ref + l;
            }
            assertEq(f, ref, "dms-cost");
        }
        t.finalize_solution(SUCCESS, N, xs.data(), z.data(), z.data(), M, z.data(), z.data(), f, nullptr, nullptr);
        return Solve_Succeeded;
    };
    assertTrue(solver.solve(), "dms-solved");
    const DmsPolicy<1, 1>& r = solver.getSolution();
    StateTrajectory<1> xt = solver.getStateTrajectory();
    ControlTrajectory<1> ut = solver.getControlTrajectory();
    assertTrue(r.xSolution_.size() == 3 && r.uSolution_.size() == 3 && r.tSolution_.size() == 3 && xt.size() == 3 && ut.size() == 3, "dms-solution-size");
    for (int i = 0; i < 3; i++)
    {
        assertEq(r.xSolution_[i](0), xs(2 * i), "dms-solution-x");
        assertEq(r.uSolution_[i](0), xs(2 * i + 1), "dms-solution-u");
        assertEq(r.tSolution_[i], d.t(i), "dms-solution-t");
        assertEq(xt[i](0), xs(2 * i), "dms-trajectory-x");
        assertEq(ut[i](0), xs(2 * i + 1), "dms-trajectory-u");
        assertEq(xt.getTimeFromIndex(i), d.t(i), "dms-trajectory-t");
        assertEq(solver.getTimeArray()[i], d.t(i), "dms-times");
    }
}
void sym_main()
{
    if (symChoice("part", 2)) dms();
    else generic();
}
