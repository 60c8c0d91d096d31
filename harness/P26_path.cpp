// BOUNDS: multiple-shooting NLPs of 1-2 shots, 2 states x 2 controls, every combination of input box, (sparse) state box and general constraints (arbitrary 2-row function of state, control and time), each with or without a terminal part, both control parameterisations; all bounds, decision variables and step sizes symbolic
// SYM: budget=250
#include "dcommon.h"
const size_t N = 2, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd MX;
typedef ConstraintBase<N, M> CB;
struct UFCon : public CB
{
    std::string g;
    UFCon(const std::string& n, const V& lb, const V& ub) : g(n)
    {
        lb_ = lb;
        ub_ = ub;
    }
    UFCon* clone() const override { return new UFCon(*this); }
    size_t getConstraintSize() const override { return 2; }
    VectorXs evaluate(const X& x, const U& u, const double t) override
    {
        V r(2);
        for (int i = 0; i < 2; i++) r(i) = symUF(g + ::S(i), catT(x, u, t));
        return r;
    }
    MatrixXs jacobianState(const X& x, const U& u, const double t) override
    {
        MX r(2, N);
        for (int i = 0; i < 2; i++)
            for (size_t j = 0; j < N; j++) r(i, j) = symDUF(g + ::S(i), j, catT(x, u, t));
        return r;
    }
    MatrixXs jacobianInput(const X& x, const U& u, const double t) override
    {
        MX r(2, M);
        for (int i = 0; i < 2; i++)
            for (size_t j = 0; j < M; j++) r(i, j) = symDUF(g + ::S(i), N + j, catT(x, u, t));
        return r;
    }
};
V bounds(const std::string& n, int k)
{
    V v(k);
    for (int i = 0; i < k; i++) v(i) = symReal(n + ::S(i));
    return v;
}
typedef std::shared_ptr<CB> Con;
typedef ContinuousOptConProblem<N, M>::ConstraintPtr_t Cont;
struct Group
{
    std::vector<Con> i, t;
    Cont make()
    {
        std::shared_ptr<ConstraintContainerAnalytical<N, M>> c(new ConstraintContainerAnalytical<N, M>());
        for (auto& k : i) c->addIntermediateConstraint(k, false);
        for (auto& k : t) c->addTerminalConstraint(k, false);
        c->initialize();
        return c;
    }
};
Con input()
{
    V lo = bounds("il", M), hi = bounds("ih", M);
    for (size_t k = 0; k < M; k++) sym_assume_le(lo(k), hi(k));
    return Con(new ControlInputConstraint<N, M>(U(lo), U(hi)));
}
Con state(const std::string& n, int pat)
{
    Eigen::VectorXi sp(N);
    sp << (pat & 1), (pat >> 1);
    int k = sp.sum();
    V lo = bounds(n + "l", k), hi = bounds(n + "h", k);
    for (int j = 0; j < k; j++) sym_assume_le(lo(j), hi(j));
    return Con(new StateConstraint<N, M>(lo, hi, sp));
}
Con general(const std::string& n) { return Con(new UFCon(n, bounds(n + "l", 2), bounds(n + "h", 2))); }
void sym_main()
{
    size_t K = 1 + symChoice("K", 2);
    bool lin = symChoice("lin", 2);
    std::vector<Group> gs;
    std::vector<Cont> in, st, ge;
    if (symChoice("input", 2))
    {
        Group g;
        g.i.push_back(input());
        gs.push_back(g);
        in.push_back(g.make());
    }
    int sb = symChoice("state", 4);
    if (sb)
    {
        Group g;
        if (sb & 1) g.i.push_back(state("sb", 2));
        if (sb & 2) g.t.push_back(state("st", 3));
        gs.push_back(g);
        st.push_back(g.make());
    }
    int gc = symChoice("general", 5);
    if (gc)
    {
        Group g;
        if (gc != 2) g.i.push_back(general("g"));
        if (gc == 4) g.i.push_back(general("k"));
        if (gc == 2 || gc == 3) g.t.push_back(general("e"));
        if (gc == 4) g.t.push_back(Con(new TerminalConstraint<N, M>(X(symMat<N>("xf")))));
        gs.push_back(g);
        ge.push_back(g.make());
    }
    double h = symPos("h");
    Dms<N, M> d(K, 1, h, lin, gc == 4, false, X(symMat<N>("x0")), in, st, ge);
    if (symChoice("before", 2))
    {
        d.set(d.fresh("v"));
        d.constraints();
        d.jacobian("first");
    }
    d.set(d.fresh("w"));
    V g = d.constraints();
    V lo(g.size()), up(g.size());
    Eigen::Map<V> ml(lo.data(), lo.size()), mu(up.data(), up.size());
    d.p->getConstraintBounds(ml, mu, g.size());
    int r = N * (K + 1);
    auto add = [&](CB& c, size_t n, const std::string& l) {
        int k = c.getConstraintSize();
        bool fits = r + k <= g.size();
        assertTrue(fits, l + "-fits");
        if (!fits) return;
        assertEqM(V(g.segment(r, k)), V(c.evaluate(d.x(n), d.u(n), d.t(n))), l + "-value");
        assertEqM(V(lo.segment(r, k)), V(c.getLowerBound()), l + "-lower");
        assertEqM(V(up.segment(r, k)), V(c.getUpperBound()), l + "-upper");
        r += k;
    };
    for (size_t n = 0; n <= K; n++)
        for (auto& q : gs)
            for (auto& c : q.i) add(*c, n, "path");
    for (auto& q : gs)
        for (auto& c : q.t) add(*c, K, "terminal");
    assertTrue(r == g.size(), "all-constraints");
    d.checkJac(g, d.jacobian("path"), "path");
}
