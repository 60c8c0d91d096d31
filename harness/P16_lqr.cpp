// BOUNDS: one Riccati step with (states,controls) = (2,1), (1,2) (inverse form) and (2,1) (eigenvalue form); discrete algebraic Riccati iteration with up to 2 iterations (1 state) and 1 iteration (2 states); finite-horizon LQR with up to 3 stages (1 state) and 1 stage (2 states; thorough: 2); continuous LQR (iterative sign-function solver) for scalar systems whose Hamiltonian is an involution, all matrices, trajectories and times symbolic
// SYM: budget=300
#include "ocommon.h"
const double EPS = 1e-5;  // documented eigenvalue shift of the robust form

// one backward step: H K = -B'PA and P = Q + A'P+A - K'HK, symmetric
template <int N, int M>
void naive(const std::string& l)
{
    typedef Eigen::Matrix<double, N, N> MN;
    typedef Eigen::Matrix<double, M, M> MM;
    MN Q = symSym<N>("Q"), P = symSym<N>("P");
    MM R = symSym<M>("R", 0.5, 2);
    Eigen::Matrix<double, N, N> A = symMat<N, N>("A");
    Eigen::Matrix<double, N, M> B = symMat<N, M>("B");
    MM H = R + B.transpose() * P * B;
    sym_assume_ne(M == 1 ? H(0, 0) : H(0, 0) * H(M - 1, M - 1) - H(0, M - 1) * H(M - 1, 0), 0.0);
    DynamicRiccatiEquation<N, M> e;
    Eigen::Matrix<double, M, N> K;
    MN Pn = P;
    e.iterateNaive(Q, R, A, B, Pn, K);
    assertEqM((H * K).eval(), (-B.transpose() * P * A).eval(), l + "-K");
    assertEqM(Pn, (Q + A.transpose() * P * A - K.transpose() * H * K).eval(), l + "-P");
    assertEqM(Pn, MN(Pn.transpose()), l + "-sym");
}
template <int N>
double regH(double h)
{
    return (h > 0 ? h : 0.0) + EPS;
}
template <int N>
void robust(const std::string& l)
{
    typedef Eigen::Matrix<double, N, N> MN;
    MN Q = symSym<N>("Q"), P = symSym<N>("P");
    Eigen::Matrix<double, 1, 1> R = symMat<1, 1>("R", 0.5, 2);
    Eigen::Matrix<double, N, N> A = symMat<N, N>("A");
    Eigen::Matrix<double, N, 1> B = symMat<N, 1>("B");
    double h = R(0, 0) + B.dot(P * B);
    sym_assume_lt(1e-6, h * h);  // eigenvalues below the smallest normal number count as zero
    DynamicRiccatiEquation<N, 1> e;
    Eigen::Matrix<double, 1, N> K;
    MN Pn = P;
    e.iterateRobust(Q, R, A, B, Pn, K);
    double H = regH<N>(R(0, 0) + B.dot(P * B));
    assertEqM((H * K).eval(), (-B.transpose() * P * A).eval(), l + "-K");
    assertEqM(Pn, (Q + A.transpose() * P * A - K.transpose() * H * K).eval(), l + "-P");
    assertEqM(Pn, MN(Pn.transpose()), l + "-sym");
}
// scalar: the returned matrix satisfies the Riccati equation up to the tolerance, or the call throws
void dareScalar()
{
    typedef Eigen::Matrix<double, 1, 1> M1;
    M1 Q, R, A, B, K, P0;
    Q << symPos("Q");
    R << symIn("R", 1e-3, 1e3);
    A << symReal("A");
    B << symReal("B");
    double eps = symPos("eps");
    sym_assume_lt(eps, 1.0);
    size_t maxIter = 1 + symChoice("maxIter", 2);
    int init = symChoice("init", 2);
    P0 << (init ? symPos("P0") : Q(0, 0));
    DARE<1, 1> d;
    M1 P;
    // reference iteration
    double p = P0(0, 0), diff = 1, k = 0;
    size_t n = 0;
    while (n < maxIter && diff >= eps)
    {
        double H = regH<1>(R(0, 0) + B(0, 0) * p * B(0, 0));
        k = -B(0, 0) * p * A(0, 0) / H;
        double pn = Q(0, 0) + A(0, 0) * p * A(0, 0) - k * H * k;
        diff = pn - p < 0 ? p - pn : pn - p;
        p = pn;
        n++;
    }
    bool conv = diff < eps;
    bool thrown = throws([&] {
        P = init ? d.computeSteadyStateRiccatiMatrix(Q, R, A, B, P0, K, false, eps, maxIter)
                 : d.computeSteadyStateRiccatiMatrix(Q, R, A, B, K, false, eps, maxIter);
    });
    assertTrue(thrown == !conv, "dare-throws-iff-not-converged");
    if (!thrown && conv)
    {
        assertEq(P(0, 0), p, "dare-P");
        assertEq(K(0, 0), k, "dare-K");
    }
}
// two states, one iteration: accepted iff every entry changed by less than eps
void dareMatrix()
{
    Eigen::Matrix2d Q = symSym<2>("Q"), A = Eigen::Matrix2d::Zero(), P0 = symSym<2>("P"), P;
    A(0, 1) = symReal("a");
    A(1, 1) = symReal("d");
    Eigen::Vector2d B = symMat<2>("B");
    Eigen::Matrix<double, 1, 1> R;
    R << symIn("R", 1e-3, 1e3);
    Eigen::Matrix<double, 1, 2> K;
    double eps = symPos("eps");
    sym_assume_lt(eps, 1.0);
    double h = R(0, 0) + B.dot(P0 * B);
    sym_assume_lt(1e-3, h);
    double H = h + EPS;
    Eigen::Matrix<double, 1, 2> Kr = -(B.transpose() * P0 * A) / H;
    Eigen::Matrix2d Pr = Q + A.transpose() * P0 * A - Kr.transpose() * H * Kr, D = Pr - P0;
    bool conv = true;
    for (int i = 0; i < 2 && conv; i++)
        for (int j = i; j < 2 && conv; j++) conv = D(i, j) < eps && -D(i, j) < eps;
    DARE<2, 1> d;
    bool thrown = throws([&] { P = d.computeSteadyStateRiccatiMatrix(Q, R, A, B, P0, K, false, eps, 1); });
    assertTrue(thrown == !conv, "dare2-throws-iff-not-converged");
    if (!thrown && conv)
    {
        assertEqM(P, Pr, "dare2-P");
        assertEqM(K, Kr, "dare2-K");
    }
}
template <int N>
void finite(int K, int way, const std::string& l)
{
    StateVectorArray<N> x;
    ControlVectorArray<1> u;
    StateMatrixArray<N> A;
    StateControlMatrixArray<N, 1> B;
    double dt = symPos("dt");
    auto cost = std::make_shared<UFCost<N, 1>>();
    auto lin = std::make_shared<UFLin<N, 1>>();
    for (int k = 0; k <= K; k++) x.push_back(StateVector<N>(symMat<N>("x" + ::S(k))));
    for (int k = 0; k < K; k++)
    {
        u.push_back(ControlVector<1>(symMat<1>("u" + ::S(k))));
        if (way == 0)
        {
            A.push_back(StateMatrix<N>(symMat<N, N>("A" + ::S(k))));
            B.push_back(StateControlMatrix<N, 1>(symMat<N, 1>("B" + ::S(k))));
        }
        else
        {
            A.push_back(StateMatrix<N>(StateMatrix<N>::Identity() + dt * lin->s.A(x[k], u[k], k * dt)));
            B.push_back(StateControlMatrix<N, 1>(dt * lin->s.B(x[k], u[k], k * dt)));
        }
    }
    // convex stages
    FHDTLQR<N, 1> lqr(cost);
    FeedbackArray<N, 1> G;
    G.resize(5);
    for (int k = 0; k < K; k++) sym_assume_lt(0.0, cost->Luu(x[k], u[k], k * dt)(0, 0));
    StateMatrix<N> P = cost->Fxx(x[K], K * dt);
    std::vector<double> H(K);
    std::vector<Eigen::Matrix<double, 1, N>> rhs(K), Kr(K);
    for (int k = K - 1; k >= 0; k--)
    {
        H[k] = dt * cost->Luu(x[k], u[k], k * dt)(0, 0) + B[k].col(0).dot(P * B[k].col(0));
        sym_assume_le(1e-6, H[k]);
        H[k] = H[k] + EPS;
        rhs[k] = -B[k].transpose() * P * A[k];
        Kr[k] = rhs[k] / H[k];
        P = (dt * cost->Lxx(x[k], u[k], k * dt) + A[k].transpose() * P * A[k] - Kr[k].transpose() * H[k] * Kr[k]).eval();
    }
    if (way == 0)
        lqr.designController(x, u, A, B, dt, G, false);
    else
        lqr.designController(x, u, lin, dt, G, false);
    assertTrue((int)G.size() == K, l + "-size");
    for (int k = 0; k < K && k < (int)G.size(); k++) assertEqM((H[k] * G[k]).eval(), rhs[k], l + "-K" + ::S(k));
}
void finiteChecks()
{
    auto cost = std::make_shared<UFCost<1, 1>>();
    FHDTLQR<1, 1> lqr(cost);
    StateVectorArray<1> x(3, StateVector<1>::Zero());
    ControlVectorArray<1> u(2, ControlVector<1>::Zero());
    StateMatrixArray<1> A(2, StateMatrix<1>::Identity());
    StateControlMatrixArray<1, 1> B(2, StateControlMatrix<1, 1>::Identity());
    FeedbackArray<1, 1> G;
    int c = symChoice("bad", 3);
    if (c == 0) u.pop_back();
    if (c == 1) A.pop_back();
    if (c == 2) B.pop_back();
    assertTrue(throws([&] { lqr.designController(x, u, A, B, 0.1, G, false); }), "fhdt-size-throws");
}
// numerical checks accept exactly the admissible weights
void finiteNumChecks()
{
    double dt = symPos("dt");
    auto cost = std::make_shared<UFCost<1, 1>>();
    FHDTLQR<1, 1> lqr(cost);
    StateVectorArray<1> x(2, StateVector<1>::Zero());
    ControlVectorArray<1> u(1, ControlVector<1>::Zero());
    StateMatrixArray<1> A(1, StateMatrix<1>::Identity());
    StateControlMatrixArray<1, 1> B(1, StateControlMatrix<1, 1>::Identity());
    FeedbackArray<1, 1> G;
    double qf = cost->Fxx(x[1], dt)(0, 0), q = cost->Lxx(x[0], u[0], 0.0)(0, 0), r = cost->Luu(x[0], u[0], 0.0)(0, 0);
    sym_assume_lt(1e-6, qf * qf);
    sym_assume_lt(1e-6, r * r);
    bool t = throws([&] { lqr.designController(x, u, A, B, dt, G, true); });
    bool bad = qf < 0.0 || q < 0.0 || r <= 0.0;
    assertTrue(t == bad, "fhdt-numcheck");
}
void care()
{
    typedef Eigen::Matrix<double, 1, 1> M1;
    M1 Q, R, A, B, K, P, Ri;
    Q << symPos("Q");
    R << symIn("R", 1e-3, 1e3);
    A << symReal("A");
    B << symReal("B");
    sym_assume_eq(A(0, 0) * A(0, 0) + Q(0, 0) * B(0, 0) * B(0, 0) / R(0, 0), 1.0);
    sym_assume_ne(B(0, 0), 0.0);
    bool diag = symChoice("diag", 2);
    LQR<1, 1> lqr;
    bool ok = lqr.compute(Q, R, A, B, K, diag, true);
    CARE<1, 1> care;
    P = care.computeSteadyStateRiccatiMatrix(Q, R, A, B, diag, true);
    assertTrue(ok, "care-success");
    assertEq(2 * A(0, 0) * P(0, 0) - P(0, 0) * B(0, 0) / R(0, 0) * B(0, 0) * P(0, 0) + Q(0, 0), 0.0, "care-residual");
    assertEq(K(0, 0) * R(0, 0), B(0, 0) * P(0, 0), "care-K");
    assertEq(A(0, 0) - B(0, 0) * K(0, 0), -1.0, "care-closed-loop");
}
// two inputs: the same Riccati equation with b^2/r summed over the inputs
void care2()
{
    typedef Eigen::Matrix<double, 1, 1> M1;
    M1 Q, A, P;
    Eigen::Matrix2d R = Eigen::Matrix2d::Zero();
    Eigen::Matrix<double, 1, 2> B;
    Eigen::Matrix<double, 2, 1> K;
    Q << symPos("Q");
    R(0, 0) = symIn("R0", 1e-2, 1e2);
    R(1, 1) = symIn("R1", 1e-2, 1e2);
    A << symReal("A");
    B << symReal("B0"), symReal("B1");
    double s = B(0) * B(0) / R(0, 0) + B(1) * B(1) / R(1, 1);
    sym_assume_eq(A(0, 0) * A(0, 0) + Q(0, 0) * s, 1.0);
    sym_assume_lt(0.01, s);
    bool diag = symChoice("diag", 2);
    LQR<1, 2> lqr;
    bool ok = lqr.compute(Q, R, A, B, K, diag, true);
    CARE<1, 2> care;
    P = care.computeSteadyStateRiccatiMatrix(Q, R, A, B, diag, true);
    assertTrue(ok, "care2-success");
    assertEq(2 * A(0, 0) * P(0, 0) - P(0, 0) * P(0, 0) * s + Q(0, 0), 0.0, "care2-residual");
    for (int i = 0; i < 2; i++) assertEq(K(i, 0) * R(i, i), B(i) * P(0, 0), "care2-K");
}
void sym_main()
{
    switch (symChoice("test", 10))
    {
        case 0: naive<2, 1>("naive21"); break;
        case 1: naive<1, 2>("naive12"); break;
        case 2: robust<2>("robust2"); break;
        case 3: dareScalar(); break;
        case 4: dareMatrix(); break;
        case 5: finite<2>(THOROUGH ? 2 : 1, symChoice("way", 2), "fh2"); break;
        case 6: finite<1>(3, symChoice("way", 2), "fh1"); break;
        case 7: symChoice("which", 2) ? finiteChecks() : finiteNumChecks(); break;
        case 8: care(); break;
        case 9: care2(); break;
    }
}
