// BOUNDS: unscented Kalman filter with 1-2 states and 1-2 outputs, one predict and one update; arbitrary process and measurement models, symbolic scaling parameters, means, covariances (positive definite), measurements, steps and times; linear models against the exact Kalman recursion (1 state, 1 output; 2 states predict)
// SYM: budget=250
#include "fcommon.h"
template <size_t N>
void posdef(const Eigen::Matrix<double, N, N>& P)
{
    sym_assume_lt(0.01, P(0, 0));
    if (N == 2) sym_assume_lt(0.01 * P(0, 0), P(0, 0) * P(1, 1) - P(1, 0) * P(1, 0));
}
template <size_t N, size_t O>
void run(int what, bool lin, bool defaults, const std::string& l)
{
    typedef Eigen::Matrix<double, N, N> MN;
    typedef Eigen::Matrix<double, O, O> MO;
    StateVector<N> x = symMat<N>("x");
    MN P = symSym<N>("P");
    int ctor = symChoice("ctor", defaults ? 3 : 2);
    if (ctor == 2) P = MN::Identity();
    posdef<N>(P);
    std::shared_ptr<UFModel<N, 1>> f(new UFModel<N, 1>());
    std::shared_ptr<UFMeas<O, N>> h(new UFMeas<O, N>());
    f->lin = h->lin = lin;
    f->Al = symMat<N, N>("A");
    h->Cl = symMat<O, N>("C");
    double al = 1, be = 2, ka = 0;
    if (!defaults)
    {
        al = symIn("alpha", 0.1, 2);
        be = symReal("beta");
        ka = symIn("kappa", -0.5, 2);
    }
    typedef UnscentedKalmanFilter<N, 1, O> Ukf;
    UnscentedKalmanFilterSettings<N> st;
    st.x0 = x;
    st.alpha = al;
    st.beta = be;
    st.kappa = ka;
    st.P0 = P;
    std::shared_ptr<Ukf> k;
    if (ctor == 2)
        k.reset(new Ukf(f, h, x));
    else if (ctor)
        k.reset(new Ukf(f, h, st));
    else
        k.reset(new Ukf(f, h, x, al, be, ka, P));
    double t = symReal("t"), dt = symPos("dt");
    ControlVector<1> u = symMat<1>("u");
    // sigma points
    double L = N, lam = al * al * (L + ka) - L, gam = std::sqrt(L + lam);
    double wm0 = lam / (L + lam), wc0 = wm0 + 1 - al * al + be, wi = 1 / (2 * (L + lam));
    MN C = MN::Zero();
    C(0, 0) = std::sqrt(P(0, 0));
    if (N == 2)
    {
        C(N - 1, 0) = P(N - 1, 0) / C(0, 0);
        C(N - 1, N - 1) = std::sqrt(P(N - 1, N - 1) - C(N - 1, 0) * C(N - 1, 0));
    }
    std::vector<StateVector<N>> s(1, x);
    for (size_t i = 0; i < N; i++) s.push_back(StateVector<N>(x + gam * C.col(i)));
    for (size_t i = 0; i < N; i++) s.push_back(StateVector<N>(x - gam * C.col(i)));
    StateVector<N> xp = StateVector<N>::Zero();
    for (size_t i = 0; i < s.size(); i++)
    {
        s[i] = f->computeDynamics(s[i], u, dt, t);
        xp = StateVector<N>(xp + (i ? wi : wm0) * s[i]);
    }
    StateVector<N> e = k->predict(u, dt, t);
    MN Pp = f->computeDerivativeNoise(xp, u, dt, t);
    if (lin)
    {
        xp = f->computeDynamics(x, u, dt, t);
        Pp = MN(f->Al * P * f->Al.transpose() + f->computeDerivativeNoise(xp, u, dt, t));
    }
    assertEqM(e, xp, l + "-predict-x");
    assertEqM(StateVector<N>(k->getEstimate()), xp, l + "-predict-est");
    if (!what) return;
    if (!lin)
        for (size_t i = 0; i < s.size(); i++) Pp = MN(Pp + (i ? wi : wc0) * (s[i] - xp) * (s[i] - xp).transpose());
    double t2 = symReal("t2");
    OutputVector<O> y = symMat<O>("y"), yp = OutputVector<O>::Zero();
    std::vector<OutputVector<O>> z;
    MO S = h->computeDerivativeNoise(xp, t2);
    Eigen::Matrix<double, N, O> X = Eigen::Matrix<double, N, O>::Zero();
    if (lin)
    {
        // the filter reuses the propagated sigma points, whose spread is A P A'
        MN Pa = MN(f->Al * P * f->Al.transpose());
        yp = h->computeMeasurement(xp, t2);
        S = MO(S + h->Cl * Pa * h->Cl.transpose());
        X = Pa * h->Cl.transpose();
    }
    else
    {
        for (size_t i = 0; i < s.size(); i++)
        {
            z.push_back(h->computeMeasurement(s[i], t2));
            yp = OutputVector<O>(yp + (i ? wi : wm0) * z[i]);
        }
        for (size_t i = 0; i < s.size(); i++)
        {
            S = MO(S + (i ? wi : wc0) * (z[i] - yp) * (z[i] - yp).transpose());
            X = Eigen::Matrix<double, N, O>(X + (i ? wi : wc0) * (s[i] - xp) * (z[i] - yp).transpose());
        }
    }
    Eigen::Matrix<double, N, O> K;
    if (O == 1)
    {
        sym_assume_ne(S(0, 0), 0.0);
        for (size_t i = 0; i < N; i++) K(i, 0) = X(i, 0) / S(0, 0);
    }
    else
    {
        double d = S(0, 0) * S(O - 1, O - 1) - S(0, O - 1) * S(O - 1, 0);
        sym_assume_ne(d, 0.0);
        MO I;
        I(0, 0) = S(O - 1, O - 1) / d;
        I(0, O - 1) = -S(0, O - 1) / d;
        I(O - 1, 0) = -S(O - 1, 0) / d;
        I(O - 1, O - 1) = S(0, 0) / d;
        K = X * I;
    }
    e = k->update(y, dt, t2);
    assertEqM(e, StateVector<N>(xp + K * (y - yp)), l + "-update-x");
    if (what < 2) return;
    // the covariance shows in the next prediction (1 state: first sigma point pair)
    MN Pu = MN(Pp - K * S * K.transpose());
    sym_assume_lt(0.01, Pu(0, 0));
    StateVector<N> m = e;
    StateVector<N> x2 = StateVector<N>(wm0 * f->computeDynamics(m, u, dt, t));
    double sq = std::sqrt(Pu(0, 0));
    for (int sg = -1; sg <= 1; sg += 2)
        x2 = StateVector<N>(x2 + wi * f->computeDynamics(StateVector<N>(m + StateVector<N>::Constant(sg * gam * sq)), u, dt, t));
    assertEqM(StateVector<N>(k->predict(u, dt, t)), x2, l + "-second-predict");
}
void sym_main()
{
    int c = symChoice("case", 6);
    if (c == 0) run<1, 1>(0, false, false, "ukf11p");
    if (c == 1) run<1, 1>(1, false, symChoice("def", 2), "ukf11");
    if (c == 2) run<1, 1>(1, true, false, "ukf11lin");
    if (c == 3) run<2, 1>(symChoice("upd", 2), false, true, "ukf21");
    if (c == 4) run<2, 2>(0, true, true, "ukf22lin");
    if (c == 5) run<1, 1>(2, false, true, "ukf11cov");
}
