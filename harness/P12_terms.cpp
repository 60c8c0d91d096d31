// BOUNDS: cost terms with state dimension 3 (2 for tracking), control dimension 2 (1); all weights, references, states, controls and times symbolic; tracking references with 2-3 samples on arbitrary grids; construction path, setter path, copy and clone
#include "common.h"
#include <ct/optcon/optcon.h>
using namespace ct::optcon;
const int N = 3, M = 2;
typedef StateVector<N> X;
typedef ControlVector<M> U;
typedef TermBase<N, M, double> TB;
typedef Eigen::Matrix<double, N, N> MQ;
typedef Eigen::Matrix<double, M, M> MR;
typedef Eigen::Matrix<double, M, N> MP;

// all derivatives of the term are the derivatives of the value it evaluates
template <size_t n, size_t m>
void derivs(TermBase<n, m, double>& term, const StateVector<n>& x, const ControlVector<m>& u, double t, const std::string& l)
{
    double v = term.evaluate(x, u, t);
    assertEq(term.eval(x, u, t), v, l + "-eval");
    StateVector<n> gx = term.stateDerivative(x, u, t);
    ControlVector<m> gu = term.controlDerivative(x, u, t);
    Eigen::Matrix<double, n, n> H = term.stateSecondDerivative(x, u, t);
    Eigen::Matrix<double, m, m> G = term.controlSecondDerivative(x, u, t);
    Eigen::Matrix<double, m, n> P = term.stateControlDerivative(x, u, t);
    for (size_t i = 0; i < n; i++)
    {
        assertDeriv(v, "x" + S(i), gx(i), l + "-dx" + S(i));
        for (size_t j = 0; j < n; j++) assertDeriv(gx(i), "x" + S(j), H(i, j), l + "-dxx" + S(i) + S(j));
        for (size_t j = 0; j < m; j++) assertDeriv(gx(i), "u" + S(j), P(j, i), l + "-dux" + S(j) + S(i));
    }
    for (size_t i = 0; i < m; i++)
    {
        assertDeriv(v, "u" + S(i), gu(i), l + "-du" + S(i));
        for (size_t j = 0; j < m; j++) assertDeriv(gu(i), "u" + S(j), G(i, j), l + "-duu" + S(i) + S(j));
    }
}
template <typename T>
std::shared_ptr<T> via(const T& t, int w)
{
    if (w == 1) return std::shared_ptr<T>(new T(t));
    return std::shared_ptr<T>(t.clone());
}
void tracking(int w)
{
    Eigen::Matrix2d Q = symMat<2, 2>("Q"), Q0;
    Eigen::Matrix<double, 1, 1> R = symMat<1, 1>("R"), R0;
    StateVector<2> x = symMat<2>("x");
    ControlVector<1> u = symMat<1>("u");
    double t = symReal("t", -1, 4);
    int n = 2 + symChoice("n", 2);
    bool lin = symChoice("lin", 2), track = symChoice("track", 2);
    TimeArray ta, tb;
    StateVectorArray<2> xa;
    ControlVectorArray<1> ua;
    double t0 = symReal("t0", 0, 1), t1 = symReal("s0", 0, 1);
    for (int i = 0; i < n; i++)
    {
        ta.push_back(t0);
        tb.push_back(t1);
        t0 = t0 + symPos("h" + S(i), 0.1, 1);
        t1 = t1 + symPos("g" + S(i), 0.1, 1);
        StateVector<2> xx = symMat<2>("xr" + S(i) + "_");
        ControlVector<1> uu = symMat<1>("ur" + S(i) + "_");
        xa.push_back(xx);
        ua.push_back(uu);
    }
    InterpolationType ix = lin ? LIN : ZOH, iu = lin ? ZOH : LIN;
    StateTrajectory<2> xt(ta, xa, ix);
    ControlTrajectory<1> ut(tb, ua, iu);
    Q0.setZero();
    R0.setZero();
    TermQuadTracking<2, 1> base(w == 0 ? Q : Q0, w == 0 ? R : R0, ix, iu, track);
    if (w) base.setWeights(Q, R);
    base.setStateAndControlReference(xt, ut);
    auto p = via(base, w == 2 ? 2 : 1);
    StateVector<2> xr = xt.eval(t);
    ControlVector<1> ur = ut.eval(t);
    StateVector<2> dx = x - xr;
    double du = u(0) - (track ? ur(0) : 0.0);
    assertEq(p->evaluate(x, u, t), dx.dot(Q * dx) + R(0, 0) * du * du, "tracking-value");
    derivs<2, 1>(*p, x, u, t, "tracking");
}
void sym_main()
{
    int kind = symChoice("kind", 7), w = symChoice("path", 3);
    if (kind == 6) return tracking(w);
    X x = symMat<N>("x"), xr = symMat<N>("xr");
    U u = symMat<M>("u"), ur = symMat<M>("ur");
    double t = symReal("t");
    if (kind == 0)
    {
        X a = symMat<N>("a");
        U b = symMat<M>("b");
        double c = symReal("c");
        auto p = via(TermLinear<N, M>(a, b, c), w == 0 ? 1 : 2);
        assertEq(p->evaluate(x, u, t), a.dot(x) + b.dot(u) + c, "linear-value");
        derivs<N, M>(*p, x, u, t, "linear");
    }
    else if (kind == 1)
    {
        MQ Q = symMat<N, N>("Q");
        MR R = symMat<M, M>("R");
        std::shared_ptr<TermQuadratic<N, M>> q;
        if (w == 0)
            q.reset(new TermQuadratic<N, M>(Q, R, xr, ur));
        else
        {
            q.reset(w == 1 ? new TermQuadratic<N, M>() : new TermQuadratic<N, M>(Q, R));
            if (w == 1) q->setWeights(Q, R);
            q->setStateAndControlReference(xr, ur);
        }
        auto p = via(*q, w + 1);
        X dx = x - xr;
        U du = u - ur;
        assertEq(p->evaluate(x, u, t), dx.dot(Q * dx) + du.dot(R * du), "quadratic-value");
        assertEqM(p->getReferenceState(), xr, "quadratic-getref");
        assertEqM(p->getStateWeight(), Q, "quadratic-getQ");
        assertEqM(p->getControlWeight(), R, "quadratic-getR");
        derivs<N, M>(*p, x, u, t, "quadratic");
    }
    else if (kind == 2)
    {
        MP P = symMat<M, N>("P");
        std::shared_ptr<TermMixed<N, M>> q(w == 0 ? new TermMixed<N, M>(P, xr, ur) : (w == 1 ? new TermMixed<N, M>(P) : new TermMixed<N, M>()));
        if (w) q->setStateAndControlReference(xr, ur);
        if (w == 2) q->setWeights(P);
        auto p = via(*q, w + 1);
        X dx = x - xr;
        U du = u - ur;
        assertEq(p->evaluate(x, u, t), du.dot(P * dx), "mixed-value");
        derivs<N, M>(*p, x, u, t, "mixed");
    }
    else if (kind == 3)
    {
        MQ Q = symMat<N, N>("Q");
        MR R = symMat<M, M>("R");
        std::shared_ptr<TermQuadMult<N, M>> q(
            w == 0 ? new TermQuadMult<N, M>(Q, R, xr, ur) : (w == 1 ? new TermQuadMult<N, M>(Q, R) : new TermQuadMult<N, M>()));
        if (w) q->setStateAndControlReference(xr, ur);
        if (w == 2) q->setWeights(Q, R);
        auto p = via(*q, w + 1);
        X dx = x - xr;
        U du = u - ur;
        assertEq(p->evaluate(x, u, t), dx.dot(Q * dx) * du.dot(R * du), "quadmult-value");
        derivs<N, M>(*p, x, u, t, "quadmult");
    }
    else if (kind == 4)
    {
        X a = symMat<N>("a");
        U b = symMat<M>("b");
        double al = symPos("alpha");
        auto p = via(TermSmoothAbs<N, M>(a, xr, b, ur, al), w == 0 ? 1 : 2);
        double v = 0;
        for (int i = 0; i < N; i++) v += a(i) * sqrt((x(i) - xr(i)) * (x(i) - xr(i)) + al * al);
        for (int i = 0; i < M; i++) v += b(i) * sqrt((u(i) - ur(i)) * (u(i) - ur(i)) + al * al);
        assertEq(p->evaluate(x, u, t), v, "smoothabs-value");
        derivs<N, M>(*p, x, u, t, "smoothabs");
    }
    else
    {
        X ub = symMat<N>("ub"), lb = symMat<N>("lb"), al = symMat<N>("al");
        TermStateBarrier<N, M> b0(ub, lb, al);
        auto p = w == 0 ? std::shared_ptr<TermStateBarrier<N, M>>(&b0, [](TermStateBarrier<N, M>*) {}) : via(b0, w);
        double v = 0;
        for (int i = 0; i < N; i++) v += exp(al(i) * (x(i) - ub(i))) + exp(al(i) * (lb(i) - x(i)));
        assertEq(p->evaluate(x, u, t), v, "barrier-value");
        b0.setTimeActivation(std::shared_ptr<ct::core::tpl::ActivationBase<double>>(new LinearActivation(0.0, 1.0, 2.0, 3.0)));
        b0.setName("bar");
        auto c = via(b0, 1 + w % 2);
        assertTrue(c->getName() == "bar", "barrier-copy-name");
        assertEq(c->computeActivation(t), 3.0 + 2.0 * t, "barrier-copy-activation");
    }
}
