// BOUNDS: steady-state Kalman filter with 1 state x 1 output (up to 2 Riccati iterations) and 2 states x 1 output (1 iteration; 3 iterations for nilpotent dynamics, where the iteration converges exactly), one predict and update; arbitrary models, all covariances and values symbolic
// SYM: budget=250
#include "fcommon.h"
template <size_t N>
void run(int iters, const std::string& l)
{
    typedef Eigen::Matrix<double, N, N> MN;
    MN Q = symSym<N>("Q");
    Eigen::Matrix<double, 1, 1> R = symMat<1, 1>("R", 0.5, 2);
    sym_assume_lt(0.01, R(0, 0));
    StateVector<N> x = symMat<N>("x");
    std::shared_ptr<UFModel<N, 1>> f(new UFModel<N, 1>());
    std::shared_ptr<UFMeas<1, N>> h(new UFMeas<1, N>());
    SteadyStateKalmanFilter<N, 1, 1> k(f, h, Q, R, x, iters);
    if (symChoice("set", 2))
    {
        SteadyStateKalmanFilter<N, 1, 1> k2(f, h, Q, R, x, iters + 1);
        k2.setMaxDAREIterations(iters);
        k = k2;
    }
    double t = symReal("t"), dt = symPos("dt"), t2 = symReal("t2");
    ControlVector<1> u = symMat<1>("u");
    MN A = f->computeDerivativeState(x, u, dt, t);
    StateVector<N> xp = f->computeDynamics(x, u, dt, t);
    assertEqM(StateVector<N>(k.predict(u, dt, t)), xp, l + "-predict");
    Eigen::Matrix<double, 1, N> C = h->computeDerivativeState(xp, t2);
    Eigen::Matrix<double, 1, 1> y = symMat<1>("y");
    StateVector<N> e;
    bool th = throws([&] { e = k.update(OutputVector<1>(y), dt, t2); });
    if (th)
    {
        assertEqM(StateVector<N>(k.getEstimate()), xp, l + "-failed-keeps-estimate");
        return;
    }
    // covariance recursion from zero: P1 = Q, P2 = Q + A P1 A' - A P1 C' (C P1 C' + R)^-1 C P1 A' (regularised as documented in DARE)
    MN P = Q;
    double conv = 0;
    for (size_t i = 0; i < N; i++)
        for (size_t j = 0; j < N; j++) conv = std::max(conv, std::abs(Q(i, j)));
    if (conv >= 1e-6)
    {
        double s = (C * P * C.transpose())(0, 0) + R(0, 0);
        double sr = (s > 0 ? s : 0.0) + 1e-5;
        MN APC = A * P * C.transpose() * C * P * A.transpose();
        P = MN(Q + A * P * A.transpose() - APC / sr);
    }
    double s = (C * P * C.transpose())(0, 0) + R(0, 0);
    sym_assume_lt(0.001, s);
    Eigen::Matrix<double, N, 1> K = P * C.transpose() / s;
    assertEqM(e, StateVector<N>(xp + K * (y - h->computeMeasurement(xp, t2))), l + "-update", 1e-3);
}
// dynamics with A^2 = 0, for which the Riccati iteration reaches its fixed point exactly in three steps
struct NilModel : public UFModel<2, 1>
{
    double a;
    typename B::state_matrix_t computeDerivativeState(const typename B::state_vector_t&, const typename B::control_vector_t&, const double, double) override
    {
        StateMatrix<2> r;
        r << 0.0, a, 0.0, 0.0;
        return r;
    }
};
struct NilMeas : public UFMeas<1, 2>
{
    double c;
    int first;
    typename B::output_state_matrix_t computeDerivativeState(const typename B::state_vector_t&, const double&) override
    {
        Eigen::Matrix<double, 1, 2> r;
        if (first) r << c, 0.0;
        else r << 0.0, c;
        return r;
    }
};
void nilpotent()
{
    Eigen::Matrix2d Q = symSym<2>("Q");
    sym_assume_lt(0.01, Q(0, 0));
    sym_assume_lt(0.01, Q(1, 1));
    Eigen::Matrix<double, 1, 1> R = symMat<1, 1>("R", 0.5, 2);
    sym_assume_lt(0.01, R(0, 0));
    StateVector<2> x = symMat<2>("x");
    std::shared_ptr<NilModel> f(new NilModel());
    std::shared_ptr<NilMeas> h(new NilMeas());
    double a = f->a = symReal("a"), c = h->c = symReal("c");
    int first = h->first = symChoice("measured", 2);
    if (first) Q(0, 1) = Q(1, 0) = 0.0;
    SteadyStateKalmanFilter<2, 1, 1> k(f, h, Q, R, x, 3);
    double t = symReal("t"), dt = symPos("dt"), t2 = symReal("t2");
    ControlVector<1> u = symMat<1>("u");
    StateVector<2> xp = f->computeDynamics(x, u, dt, t);
    assertEqM(StateVector<2>(k.predict(u, dt, t)), xp, "sskf-nil-predict");
    Eigen::Matrix<double, 1, 1> y = symMat<1>("y");
    StateVector<2> e = k.update(OutputVector<1>(y), dt, t2);
    // P = Q + A (P - P C' (C P C' + R)^-1 C P) A'
    double p0 = Q(0, 0) + a * a * Q(1, 1), p1 = Q(1, 1);
    double s = c * c * (first ? p0 : p1) + R(0, 0);
    StateVector<2> K;
    K(0) = (first ? p0 : Q(0, 1)) * c / s;
    K(1) = (first ? 0.0 : p1) * c / s;
    assertEqM(e, StateVector<2>(xp + K * (y(0) - h->computeMeasurement(xp, t2)(0))), "sskf-nil-update", 1e-3);
}
void sym_main()
{
    int c = symChoice("case", 3);
    if (c == 2) nilpotent();
    if (c == 0) run<1>(1 + symChoice("it", 2), "sskf1");
    if (c == 1) run<2>(1, "sskf2");
}
