// BOUNDS: extended Kalman filter with 2 states x 1 control and 1 or 2 outputs, one predict, one update, and predict-update with new noise matrices in between (1 state); arbitrary process and measurement models and Jacobians, all covariances, gains, measurements, steps and times symbolic
// SYM: budget=250
#include "fcommon.h"
template <int O>
Eigen::Matrix<double, O, O> inv(const Eigen::Matrix<double, O, O>& S);
template <>
Eigen::Matrix<double, 1, 1> inv<1>(const Eigen::Matrix<double, 1, 1>& S)
{
    sym_assume_ne(S(0, 0), 0.0);
    Eigen::Matrix<double, 1, 1> r;
    r(0, 0) = 1.0 / S(0, 0);
    return r;
}
template <>
Eigen::Matrix<double, 2, 2> inv<2>(const Eigen::Matrix<double, 2, 2>& S)
{
    double d = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0);
    sym_assume_ne(d, 0.0);
    Eigen::Matrix<double, 2, 2> r;
    r << S(1, 1) / d, -S(0, 1) / d, -S(1, 0) / d, S(0, 0) / d;
    return r;
}
template <size_t N, size_t O>
struct Ref
{
    typedef Eigen::Matrix<double, N, N> MN;
    typedef Eigen::Matrix<double, O, O> MO;
    UFModel<N, 1> f;
    UFMeas<O, N> h;
    StateVector<N> x;
    MN P, Q;
    MO R;
    void predict(const ControlVector<1>& u, double dt, double t)
    {
        MN F = f.computeDerivativeState(x, u, dt, t), V = f.computeDerivativeNoise(x, u, dt, t);
        P = MN(F * P * F.transpose() + V * (dt * Q) * V.transpose());
        x = f.computeDynamics(x, u, dt, t);
    }
    void update(const OutputVector<O>& y, double t)
    {
        Eigen::Matrix<double, O, N> H = h.computeDerivativeState(x, t);
        MO W = h.computeDerivativeNoise(x, t);
        MO S = H * P * H.transpose() + W * R * W.transpose();
        Eigen::Matrix<double, N, O> K = P * H.transpose() * inv<O>(S);
        x = StateVector<N>(x + K * (y - h.computeMeasurement(x, t)));
        P = MN(P - K * H * P);
    }
};
template <size_t N, size_t O>
void run(int what, const std::string& l)
{
    Ref<N, O> r;
    r.x = symMat<N>("x");
    r.P = symSym<N>("P");
    r.Q = symSym<N>("Q");
    r.R = symSym<O>("R");
    std::shared_ptr<UFModel<N, 1>> f(new UFModel<N, 1>());
    std::shared_ptr<UFMeas<O, N>> h(new UFMeas<O, N>());
    ExtendedKalmanFilter<N, 1, O> k(f, h, r.Q, r.R, r.x, r.P);
    assertEqM(StateVector<N>(k.getEstimate()), r.x, l + "-initial");
    double t = symReal("t"), dt = symPos("dt");
    ControlVector<1> u = symMat<1>("u");
    if (what == 3)
    {
        r.Q = symSym<N>("Q2");
        r.R = symSym<O>("R2");
        k.setQ(r.Q);
        k.setR(r.R);
        r.x = symMat<N>("x2");
        k.setEstimate(r.x);
        assertEqM(StateVector<N>(k.getEstimate()), r.x, l + "-set");
    }
    if (what != 1)
    {
        r.predict(u, dt, t);
        assertEqM(StateVector<N>(k.predict(u, dt, t)), r.x, l + "-predict-x");
        assertEqM(StateVector<N>(k.getEstimate()), r.x, l + "-predict-est");
        assertEqM(StateMatrix<N>(k.getCovarianceMatrix()), r.P, l + "-predict-P");
        t = symReal("t2");
    }
    if (what != 0)
    {
        OutputVector<O> y = symMat<O>("y");
        r.update(y, t);
        assertEqM(StateVector<N>(k.update(y, dt, t)), r.x, l + "-update-x");
        assertEqM(StateVector<N>(k.getEstimate()), r.x, l + "-update-est");
        assertEqM(StateMatrix<N>(k.getCovarianceMatrix()), r.P, l + "-update-P");
    }
}
void sym_main()
{
    int c = symChoice("case", 3);
    if (c == 0) run<2, 1>(symChoice("what", 2), "ekf21");
    if (c == 1) run<2, 2>(symChoice("what", 2), "ekf22");
    if (c == 2) run<1, 1>(symChoice("what", 4), "ekf11");
}
