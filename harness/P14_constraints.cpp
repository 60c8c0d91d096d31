// BOUNDS: box constraints with every selection pattern of 3 states / 2 controls, terminal, obstacle and arbitrary dense constraints (2 rows), containers with up to 3 intermediate and 2 terminal constraints, switched containers with 2 modes and 3 phases; all bounds, states, controls and times symbolic
// SYM: budget=250
#include "common.h"
#include <ct/optcon/optcon.h>
using namespace ct::optcon;
const int N = 3, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd MX;
typedef ConstraintBase<N, M> CB;
typedef ConstraintContainerAnalytical<N, M> CC;
// g(x,u,t), two rows, dense Jacobians, default sparsity
struct UFCon : public CB
{
    std::string g;
    UFCon(const std::string& n, const V& lb, const V& ub) : g(n)
    {
        lb_ = lb;
        ub_ = ub;
    }
    UFCon* clone() const override { return new UFCon(*this); }
    size_t getConstraintSize() const override { return 2; }
    VectorXs evaluate(const X& x, const U& u, const double t) override
    {
        V r(2);
        for (int i = 0; i < 2; i++) r(i) = symUF(g + ::S(i), catT(x, u, t));
        return r;
    }
    MatrixXs jacobianState(const X& x, const U& u, const double t) override
    {
        MX r(2, N);
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < N; j++) r(i, j) = symDUF(g + ::S(i), j, catT(x, u, t));
        return r;
    }
    MatrixXs jacobianInput(const X& x, const U& u, const double t) override
    {
        MX r(2, M);
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < M; j++) r(i, j) = symDUF(g + ::S(i), N + j, catT(x, u, t));
        return r;
    }
};
MX dense(const V& val, const Eigen::VectorXi& r, const Eigen::VectorXi& c, int nr, int nc, const std::string& l)
{
    MX m = MX::Zero(nr, nc);
    assertTrue(val.size() == r.size() && r.size() == c.size(), l + "-sizes");
    if (val.size() != r.size() || r.size() != c.size()) return m;
    for (int i = 0; i < r.size(); i++)
    {
        bool ok = r(i) >= 0 && r(i) < nr && c(i) >= 0 && c(i) < nc;
        assertTrue(ok, l + "-range");
        if (ok) m(r(i), c(i)) = m(r(i), c(i)) + val(i);
    }
    return m;
}
// sparse and dense representation of one constraint agree with the expected Jacobian
void single(CB& c, const X& x, const U& u, double t, const V& g, const MX& Jx, const MX& Ju, const std::string& l)
{
    assertTrue((int)c.getConstraintSize() == g.size(), l + "-size");
    assertEqM(V(c.evaluate(x, u, t)), g, l + "-value");
    assertEqM(MX(c.jacobianState(x, u, t)), Jx, l + "-jac-state");
    assertEqM(MX(c.jacobianInput(x, u, t)), Ju, l + "-jac-input");
    Eigen::VectorXi r, cc;
    if (c.getNumNonZerosJacobianState())
    {
        c.sparsityPatternState(r, cc);
        assertTrue((int)c.getNumNonZerosJacobianState() == r.size(), l + "-nnz-state");
        assertEqM(dense(c.jacobianStateSparse(x, u, t), r, cc, g.size(), N, l + "-sp-state"), Jx, l + "-sparse-state");
    }
    else
        assertEqM(Jx, MX(MX::Zero(g.size(), N)), l + "-no-state");
    if (c.getNumNonZerosJacobianInput())
    {
        c.sparsityPatternInput(r, cc);
        assertTrue((int)c.getNumNonZerosJacobianInput() == r.size(), l + "-nnz-input");
        assertEqM(dense(c.jacobianInputSparse(x, u, t), r, cc, g.size(), M, l + "-sp-input"), Ju, l + "-sparse-input");
    }
    else
        assertEqM(Ju, MX(MX::Zero(g.size(), M)), l + "-no-input");
}
V bounds(const std::string& n, int k)
{
    V v(k);
    for (int i = 0; i < k; i++) v(i) = symReal(n + S(i));
    return v;
}
void ordered(const V& lo, const V& hi)
{
    for (int i = 0; i < lo.size(); i++) sym_assume_le(lo(i), hi(i));
}
void boxes()
{
    X x = symMat<N>("x");
    U u = symMat<M>("u");
    double t = symReal("t");
    bool st = symChoice("state", 2);
    int d = st ? N : M, pat = symChoice("pattern", 1 << d);
    V z = st ? V(x) : V(u);
    if (pat == 0)  // full box
    {
        V lo = bounds("lo", d), hi = bounds("hi", d);
        ordered(lo, hi);
        std::shared_ptr<CB> c(st ? (CB*)new StateConstraint<N, M>(X(lo), X(hi)) : (CB*)new ControlInputConstraint<N, M>(U(lo), U(hi)));
        std::shared_ptr<CB> k(c->clone());
        single(*k, x, u, t, z, st ? MX(MX::Identity(N, N)) : MX(MX::Zero(M, N)), st ? MX(MX::Zero(N, M)) : MX(MX::Identity(M, M)), "box");
        assertEqM(V(k->getLowerBound()), lo, "box-lb");
        assertEqM(V(k->getUpperBound()), hi, "box-ub");
        return;
    }
    Eigen::VectorXi sp(d);
    std::vector<int> sel;
    for (int i = 0; i < d; i++)
    {
        sp(i) = (pat >> i) & 1;
        if (sp(i)) sel.push_back(i);
    }
    int n = sel.size();
    V lo = bounds("lo", n), hi = bounds("hi", n);
    bool bad = false;
    for (int i = 0; i < n; i++)
        if (hi(i) < lo(i)) bad = true;
    std::shared_ptr<CB> c;
    bool thrown = throws([&] { c.reset(st ? (CB*)new StateConstraint<N, M>(lo, hi, sp) : (CB*)new ControlInputConstraint<N, M>(lo, hi, sp)); });
    assertTrue(thrown == bad, "box-order-check");
    if (thrown || bad) return;
    V wrong = V::Zero(n + 1);
    assertTrue(throws([&] {
        if (st) StateConstraint<N, M>(wrong, wrong, sp);
        else ControlInputConstraint<N, M>(wrong, wrong, sp);
    }), "box-size-check");
    std::shared_ptr<CB> k(c->clone());
    V g(n);
    MX J = MX::Zero(n, d);
    for (int i = 0; i < n; i++)
    {
        g(i) = z(sel[i]);
        J(i, sel[i]) = 1;
    }
    single(*k, x, u, t, g, st ? J : MX(MX::Zero(n, N)), st ? MX(MX::Zero(n, M)) : J, "sparsebox");
    assertEqM(V(k->getLowerBound()), lo, "sparsebox-lb");
    assertEqM(V(k->getUpperBound()), hi, "sparsebox-ub");
}
void others()
{
    X x = symMat<N>("x"), xf = symMat<N>("xf");
    U u = symMat<M>("u");
    double t = symReal("t");
    int k = symChoice("kind", 3);
    if (k == 0)
    {
        TerminalConstraint<N, M> c0(xf);
        std::shared_ptr<CB> c(c0.clone());
        single(*c, x, u, t, V(x - xf), MX(MX::Identity(N, N)), MX(MX::Zero(N, M)), "terminal");
        assertEqM(V(c->getLowerBound()), V(V::Zero(N)), "terminal-lb");
        assertEqM(V(c->getUpperBound()), V(V::Zero(N)), "terminal-ub");
    }
    else if (k == 1)
    {
        V lo = bounds("lo", 2), hi = bounds("hi", 2);
        UFCon c0("g", lo, hi);
        std::shared_ptr<CB> c(c0.clone());
        single(*c, x, u, t, c0.evaluate(x, u, t), c0.jacobianState(x, u, t), c0.jacobianInput(x, u, t), "dense");
        assertEqM(V(c->getLowerBound()), lo, "dense-lb");
    }
    else
    {
        Eigen::Vector3d x0 = symMat<3>("c");
        Eigen::Matrix3d A = symMat<3, 3>("A"), R = symMat<3, 3>("S");
        std::shared_ptr<Ellipsoid> e(new Ellipsoid(x0, A, R));
        auto pos = [](const X& q, Eigen::Vector3d& p) { p << q(0) * q(1), q(1) - q(2), 2 * q(0); };
        auto jac = [](const X& q, Eigen::Matrix<double, 3, N>& J) { J << q(1), q(0), 0, 0, 1, -1, 2, 0, 0; };
        ObstacleConstraint<N, M> c0(e, pos, jac);
        std::shared_ptr<CB> c(c0.clone());
        Eigen::Vector3d p;
        pos(x, p);
        Eigen::Vector3d w = A * R.transpose() * (p - x0);
        V v = c->evaluate(x, u, t);
        assertEq(v(0), w.dot(w) - 1.0, "obstacle-value");
        assertEqM(V(c->getLowerBound()), V(V::Zero(1)), "obstacle-lb");
        MX J = c->jacobianState(x, u, t);
        for (int i = 0; i < N; i++) assertDeriv(v(0), "x" + S(i), J(0, i), "obstacle-jac");
        assertEqM(MX(c->jacobianInput(x, u, t)), MX(MX::Zero(1, M)), "obstacle-jac-input");
    }
}
// reference stacking
struct Stack
{
    V g, lo, hi;
    MX Jx, Ju;
    Stack() : g(0), lo(0), hi(0), Jx(0, N), Ju(0, M) {}
    void add(CB& c, const X& x, const U& u, double t)
    {
        int n = c.getConstraintSize(), k = g.size();
        g.conservativeResize(k + n);
        lo.conservativeResize(k + n);
        hi.conservativeResize(k + n);
        Jx.conservativeResize(k + n, N);
        Ju.conservativeResize(k + n, M);
        g.tail(n) = c.evaluate(x, u, t);
        lo.tail(n) = c.getLowerBound();
        hi.tail(n) = c.getUpperBound();
        Jx.bottomRows(n) = c.jacobianState(x, u, t);
        Ju.bottomRows(n) = c.jacobianInput(x, u, t);
    }
};
template <typename C>
void checkI(C& c, const Stack& s, const std::string& l)
{
    int n = s.g.size();
    assertTrue((int)c.getIntermediateConstraintsCount() == n, l + "-count");
    assertEqM(V(c.evaluateIntermediate()), s.g, l + "-value");
    assertEqM(V(c.getLowerBoundsIntermediate()), s.lo, l + "-lb");
    assertEqM(V(c.getUpperBoundsIntermediate()), s.hi, l + "-ub");
    assertEqM(MX(c.jacobianStateIntermediate()), s.Jx, l + "-Jx");
    assertEqM(MX(c.jacobianInputIntermediate()), s.Ju, l + "-Ju");
    Eigen::VectorXi r, k;
    c.sparsityPatternStateIntermediate(r, k);
    assertTrue((int)c.getJacobianStateNonZeroCountIntermediate() == r.size(), l + "-nnz-state");
    assertEqM(dense(c.jacobianStateSparseIntermediate(), r, k, n, N, l + "-sp-state"), s.Jx, l + "-sparse-Jx");
    c.sparsityPatternInputIntermediate(r, k);
    assertTrue((int)c.getJacobianInputNonZeroCountIntermediate() == r.size(), l + "-nnz-input");
    assertEqM(dense(c.jacobianInputSparseIntermediate(), r, k, n, M, l + "-sp-input"), s.Ju, l + "-sparse-Ju");
}
template <typename C>
void checkT(C& c, const Stack& s, const std::string& l)
{
    int n = s.g.size();
    assertTrue((int)c.getTerminalConstraintsCount() == n, l + "-count");
    assertEqM(V(c.evaluateTerminal()), s.g, l + "-value");
    assertEqM(V(c.getLowerBoundsTerminal()), s.lo, l + "-lb");
    assertEqM(V(c.getUpperBoundsTerminal()), s.hi, l + "-ub");
    assertEqM(MX(c.jacobianStateTerminal()), s.Jx, l + "-Jx");
    assertEqM(MX(c.jacobianInputTerminal()), s.Ju, l + "-Ju");
    Eigen::VectorXi r, k;
    c.sparsityPatternStateTerminal(r, k);
    assertTrue((int)c.getJacobianStateNonZeroCountTerminal() == r.size(), l + "-nnz-state");
    assertEqM(dense(c.jacobianStateSparseTerminal(), r, k, n, N, l + "-sp-state"), s.Jx, l + "-sparse-Jx");
    c.sparsityPatternInputTerminal(r, k);
    assertTrue((int)c.getJacobianInputNonZeroCountTerminal() == r.size(), l + "-nnz-input");
    assertEqM(dense(c.jacobianInputSparseTerminal(), r, k, n, M, l + "-sp-input"), s.Ju, l + "-sparse-Ju");
}
std::shared_ptr<CB> make(int kind, const std::string& n, bool* ok = nullptr)
{
    V lo, hi;
    Eigen::VectorXi sp;
    if (kind == 0)
    {
        sp.resize(N);
        sp << 1, 0, 1;
        lo = bounds(n + "lo", 2), hi = bounds(n + "hi", 2);
        ordered(lo, hi);
        return std::shared_ptr<CB>(new StateConstraint<N, M>(lo, hi, sp));
    }
    if (kind == 1)
    {
        sp.resize(M);
        sp << 0, 1;
        lo = bounds(n + "lo", 1), hi = bounds(n + "hi", 1);
        ordered(lo, hi);
        return std::shared_ptr<CB>(new ControlInputConstraint<N, M>(lo, hi, sp));
    }
    lo = bounds(n + "lo", 2), hi = bounds(n + "hi", 2);
    return std::shared_ptr<CB>(new UFCon(n + "g", lo, hi));
}
void container()
{
    X x = symMat<N>("x"), y = symMat<N>("y");
    U u = symMat<M>("u"), v = symMat<M>("v");
    double t = symReal("t"), s = symReal("s");
    int order = symChoice("order", 3);
    std::vector<std::shared_ptr<CB>> ic, tc;
    for (int i = 0; i < 3; i++) ic.push_back(make((i + order) % 3, "i" + S(i)));
    tc.push_back(make(2 - order, "t0"));
    tc.push_back(std::shared_ptr<CB>(new TerminalConstraint<N, M>(X(symMat<N>("xf")))));
    CC c0;
    int what = symChoice("what", 3);  // both, intermediate only, terminal only
    if (what != 2)
        for (auto& c : ic) c0.addIntermediateConstraint(c, false);
    if (what != 1)
        for (auto& c : tc) c0.addTerminalConstraint(c, false);
    c0.setCurrentStateAndControl(y, v, s);
    if (what != 2) assertTrue(throws([&] { c0.evaluateIntermediate(); }) && throws([&] { c0.jacobianStateIntermediate(); }), "uninitialised-throws");
    if (what != 1)
        assertTrue(throws([&] { c0.evaluateTerminal(); }) && throws([&] { c0.jacobianStateTerminal(); }) &&
                       throws([&] { c0.jacobianStateSparseTerminal(); }) && throws([&] { c0.jacobianInputTerminal(); }),
            "uninitialised-terminal-throws");
    c0.initialize();
    assertTrue(c0.isInitialized(), "initialised");
    std::shared_ptr<CC> c;
    bool cl = symChoice("clone", 2);
    if (cl) c.reset(c0.clone());
    else c.reset(&c0, [](CC*) {});
    c->setCurrentStateAndControl(x, u, t);
    Stack si, st;
    if (what != 2)
    {
        for (auto& k : ic) si.add(*k, x, u, t);
        checkI(*c, si, "container-intermediate");
    }
    if (what != 1)
    {
        for (auto& k : tc) st.add(*k, x, u, t);
        checkT(*c, st, "container-terminal");
    }
    assertTrue((int)c->getConstraintsCount() == si.g.size() + st.g.size(), "container-total");
    assertTrue(c->getJacNonZeroCount() == c->getJacobianStateNonZeroCountIntermediate() + c->getJacobianInputNonZeroCountIntermediate() +
                                              c->getJacobianStateNonZeroCountTerminal() + c->getJacobianInputNonZeroCountTerminal(),
        "container-nnz");
    if (cl && what != 2)
    {
        Stack so;
        for (auto& k : ic) so.add(*k, y, v, s);
        checkI(c0, so, "container-original");
    }
}
void violations()
{
    // one constraint per stage, so that the number of sign patterns stays small
    X x = symMat<N>("x");
    U u = symMat<M>("u");
    double t = symReal("t");
    CC c;
    std::shared_ptr<CB> i = make(2, "i"), k = make(1, "k");
    bool term = symChoice("terminal", 2);
    if (term) c.addTerminalConstraint(i, false), c.addTerminalConstraint(k, false);
    else c.addIntermediateConstraint(i, false), c.addIntermediateConstraint(k, false);
    c.initialize();
    c.setCurrentStateAndControl(x, u, t);
    Stack s;
    s.add(*i, x, u, t);
    s.add(*k, x, u, t);
    V up = term ? c.getUpperBoundsViolationTerminal() : c.getUpperBoundsViolationIntermediate();
    V lo = term ? c.getLowerBoundsViolationTerminal() : c.getLowerBoundsViolationIntermediate();
    V tot = term ? c.getTotalBoundsViolationTerminal() : c.getTotalBoundsViolationIntermediate();
    assertTrue(up.size() == 3 && lo.size() == 3 && tot.size() == 3, "violation-size");
    for (int j = 0; j < 3; j++)
    {
        double a = s.g(j) - s.hi(j), b = s.g(j) - s.lo(j);
        double ea = a > 0 ? a : 0.0, eb = b < 0 ? b : 0.0;
        assertEq(up(j), ea, "upper-violation");
        assertEq(lo(j), eb, "lower-violation");
        assertEq(tot(j), ea + eb, "total-violation");
    }
}
void switched()
{
    X x = symMat<N>("x"), y = symMat<N>("y");
    U u = symMat<M>("u"), v = symMat<M>("v");
    double t = symReal("t"), s = symReal("s"), t0 = symReal("t0");
    Switched<std::shared_ptr<LinearConstraintContainer<N, M>>> sw;
    std::vector<std::shared_ptr<CB>> ic, tc;
    for (int i = 0; i < 2; i++)
    {
        ic.push_back(make(i == 0 ? 2 : 0, "i" + S(i)));
        tc.push_back(make(i == 0 ? 0 : 2, "t" + S(i)));
        std::shared_ptr<CC> c(new CC());
        c->addIntermediateConstraint(ic[i], false);
        c->addTerminalConstraint(tc[i], false);
        sw.push_back(c);
    }
    ContinuousModeSequence seq(t0);
    double d0 = symPos("d0"), d1 = symPos("d1"), d2 = symPos("d2");
    int last = symChoice("last", 2);
    seq.addPhase(1, d0);
    seq.addPhase(0, d1);
    seq.addPhase(last, d2);
    SwitchedLinearConstraintContainer<N, M> c0(sw, seq);
    c0.initialize();
    assertTrue(c0.isInitialized(), "switched-init");
    int path = symChoice("path", 3);
    if (path) c0.setCurrentStateAndControl(path == 1 ? y : x, path == 1 ? v : u, path == 1 ? s : t);
    std::shared_ptr<SwitchedLinearConstraintContainer<N, M>> c(c0.clone());
    if (path != 2) c->setCurrentStateAndControl(x, u, t);
    int m = t < t0 + d0 ? 1 : (t < t0 + d0 + d1 ? 0 : last);
    Stack si, st;
    si.add(*ic[m], x, u, t);
    st.add(*tc[last], x, u, t);
    checkI(*c, si, "switched-intermediate");
    checkT(*c, st, "switched-terminal");
}
void sym_main()
{
    switch (symChoice("mode", 5))
    {
        case 0: return boxes();
        case 1: return others();
        case 2: return container();
        case 3: return violations();
        default: return switched();
    }
}
