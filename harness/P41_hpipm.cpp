// BOUNDS: 2 states, 2 controls; one or two problems in a row (same or another object; 1 to 3 stages, shrinking, growing, equal; box and general constraints on different stages, finite or infinite bounds, counts equal or changed), all matrices, bounds and solver answers symbolic; HPIPM itself is left open (a stand-in with its interface that copies the problem and returns arbitrary results)
// SYM: budget=300 maxpaths=4000
#define HPIPM
#include "ocommon.h"
const int N = 2, M = 2;
typedef LQOCProblem<N, M> Prob;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd MX;
const double INF = 1e20;
struct Kind
{
    int K;       // stages
    int nbu, nbx, nbT, ng, ngT;
    int inf;     // 0: finite, 1: lower open, 2: upper open, 3: mixed
};
double lower(const std::string& n, int inf, int i) { return inf == 1 || (inf == 3 && i == 0) ? -INF : symIn(n, -1e6, 1e6); }
double upper(const std::string& n, int inf, int i) { return inf == 2 || (inf == 3 && i == 1) ? INF : symIn(n, -1e6, 1e6); }
void fill(Prob& p, const Kind& k, const std::string& t)
{
    p.changeNumStages(k.K);
    p.setZero();
    for (int i = 0; i <= k.K; i++)
    {
        std::string l = t + ::S(i);
        if (i < k.K)
        {
            p.A_[i] = symMat<N, N>(l + "A");
            p.B_[i] = symMat<N, M>(l + "B");
            p.b_[i] = symMat<N>(l + "b");
            p.P_[i] = symMat<M, N>(l + "P");
            p.R_[i] = symSym<M>(l + "R");
            p.rv_[i] = symMat<M>(l + "r");
        }
        p.Q_[i] = symSym<N>(l + "Q");
        p.qv_[i] = symMat<N>(l + "q");
        if (i < k.K)
        {
            p.nbu_[i] = k.nbu;
            for (int j = 0; j < k.nbu; j++)
            {
                p.u_I_[i](j) = k.nbu == 1 ? 1 : j;
                p.u_lb_[i](j) = lower(l + "ul" + ::S(j), k.inf, j);
                p.u_ub_[i](j) = upper(l + "uu" + ::S(j), k.inf, j);
            }
        }
        p.nbx_[i] = i < k.K ? k.nbx : k.nbT;
        for (int j = 0; j < p.nbx_[i]; j++)
        {
            p.x_I_[i](j) = p.nbx_[i] == 1 ? 1 : j;
            p.x_lb_[i](j) = lower(l + "xl" + ::S(j), k.inf, j);
            p.x_ub_[i](j) = upper(l + "xu" + ::S(j), k.inf, j);
        }
        int g = p.ng_[i] = i < k.K ? k.ng : k.ngT;
        p.C_[i].resize(g, N);
        p.D_[i].resize(g, M);
        p.d_lb_[i].resize(g, 1);
        p.d_ub_[i].resize(g, 1);
        for (int r = 0; r < g; r++)
        {
            for (int c = 0; c < N; c++) p.C_[i](r, c) = symReal(l + "C" + ::S(r) + ::S(c));
            for (int c = 0; c < M; c++) p.D_[i](r, c) = symReal(l + "D" + ::S(r) + ::S(c));
            p.d_lb_[i](r) = lower(l + "gl" + ::S(r), k.inf, r);
            p.d_ub_[i](r) = upper(l + "gu" + ::S(r), k.inf, r);
        }
    }
}
template <typename A, typename B>
void same(const A& got, const B& want, const std::string& l)
{
    bool sz = (int)got.size() == (int)want.size();
    assertTrue(sz, l + "-size");
    if (sz)
        for (int i = 0; i < (int)got.size(); i++) assertEq(got[i], want.data()[i], l);
}
// a bound of the original problem is either enforced with its value or, if infinite, switched off
void bound(double val, double mask, double orig, bool infinite, const std::string& l)
{
    if (infinite)
        assertTrue(mask == 0.0, l + "-open");
    else
    {
        assertTrue(mask == 1.0, l + "-enforced");
        assertEq(val, orig, l);
    }
}
void check(const Prob& cp, const Kind& k, const std::string& t)
{
    Prob p(cp);
    const d_ocp_qp& q = *hpLog().qp;
    const d_ocp_qp_dim& d = *q.dim;
    const int K = k.K;
    assertTrue(d.N == K, t + "horizon");
    if (d.N != K) return;
    bool lo0 = k.inf == 1 || k.inf == 3, lo1 = k.inf == 1, up0 = k.inf == 2, up1 = k.inf == 2 || k.inf == 3;
    for (int i = 0; i <= K; i++)
    {
        std::string l = t + "stage" + ::S(i) + "-";
        // the initial deviation is zero and no decision variable
        assertTrue(d.nx[i] == (i ? N : 0) && d.nu[i] == (i < K ? M : 0) && d.ns[i] == 0, l + "sizes");
        assertTrue(d.nbu[i] == (i < K ? k.nbu : 0), l + "number-of-input-boxes");
        assertTrue(d.nbx[i] == (i == 0 ? 0 : i < K ? k.nbx : k.nbT), l + "number-of-state-boxes");
        assertTrue(d.ng[i] == (i < K ? k.ng : k.ngT), l + "number-of-general-constraints");
        if (i < K)
        {
            if (i) same(q.A[i], p.A_[i], l + "A");
            same(q.B[i], p.B_[i], l + "B");
            same(q.b[i], p.b_[i], l + "b");
            if (i) same(q.S[i], p.P_[i], l + "P");
            same(q.R[i], p.R_[i], l + "R");
            same(q.r[i], p.rv_[i], l + "r");
        }
        if (i) same(q.Q[i], p.Q_[i], l + "Q");
        if (i) same(q.q[i], p.qv_[i], l + "q");
        for (int j = 0; j < d.nbu[i] && i < K; j++)
        {
            assertTrue(q.idxbu[i][j] == p.u_I_[i](j), l + "u-index");
            bound(q.lbu[i][j], q.mlbu[i][j], p.u_lb_[i](j), j ? lo1 : lo0, l + "u-lower" + ::S(j));
            bound(q.ubu[i][j], q.mubu[i][j], p.u_ub_[i](j), j ? up1 : up0, l + "u-upper" + ::S(j));
        }
        for (int j = 0; j < d.nbx[i] && i; j++)
        {
            assertTrue(q.idxbx[i][j] == p.x_I_[i](j), l + "x-index");
            bound(q.lbx[i][j], q.mlbx[i][j], p.x_lb_[i](j), j ? lo1 : lo0, l + "x-lower" + ::S(j));
            bound(q.ubx[i][j], q.mubx[i][j], p.x_ub_[i](j), j ? up1 : up0, l + "x-upper" + ::S(j));
        }
        if (d.ng[i])
        {
            if (i) same(q.C[i], p.C_[i], l + "C");
            if (i < K) same(q.D[i], p.D_[i], l + "D");
            for (int j = 0; j < d.ng[i]; j++)
            {
                bound(q.lg[i][j], q.mlg[i][j], p.d_lb_[i](j), j ? lo1 : lo0, l + "g-lower" + ::S(j));
                bound(q.ug[i][j], q.mug[i][j], p.d_ub_[i](j), j ? up1 : up0, l + "g-upper" + ::S(j));
            }
        }
    }
}
// the answer of the library is returned; the feedback of the first stage follows from its Riccati matrices
void answer(HPIPMInterface<N, M>& s, const Prob& cp, int K, const std::string& t)
{
    Prob p(cp);
    std::string tag = "sol" + ::S(hpLog().solves);
    s.computeStatesAndControls();
    s.computeFeedbackMatrices();
    s.compute_lv();
    auto x = s.getSolutionState();
    auto u = s.getSolutionControl();
    auto L = s.getSolutionFeedback();
    auto lv = s.get_lv();
    bool sz = (int)x.size() == K + 1 && (int)u.size() == K && (int)L.size() == K && (int)lv.size() == K;
    assertTrue(sz, t + "solution-sizes");
    if (!sz) return;
    for (int j = 0; j < N; j++) assertEq(x[0](j), 0, t + "x0");
    for (int i = 0; i < K; i++)
        for (int j = 0; j < M; j++)
        {
            assertEq(u[i](j), hpVal(tag, "u", i, j), t + "u");
            assertEq(lv[i](j), hpVal(tag, "k", i, j), t + "lv");
        }
    for (int i = 1; i <= K; i++)
        for (int j = 0; j < N; j++) assertEq(x[i](j), hpVal(tag, "x", i, j), t + "x");
    for (int i = 1; i < K; i++)
        for (int j = 0; j < N * M; j++) assertEq(L[i].data()[j], hpVal(tag, "K", i, j), t + "K");
    Eigen::Matrix<double, M, M> Lr;
    Eigen::Matrix<double, N, N> P1;
    for (int r = 0; r < N; r++)
        for (int c = 0; c < N; c++) P1(r, c) = hpVal(tag, "P", 1, std::min(r, c) * 10 + std::max(r, c));
    Lr << symPos(tag + "Lr0_0"), 0, hpVal(tag, "Lr", 0, 101), symPos(tag + "Lr0_1");
    Eigen::Matrix<double, M, N> G = p.P_[0] + p.B_[0].transpose() * P1 * p.A_[0];
    Eigen::Matrix<double, M, N> z = Lr * (Lr.transpose() * L[0]) + G;
    for (int j = 0; j < N * M; j++) assertEq(z.data()[j], 0, t + "K0");
}
Kind kind(const std::string& n, int c)
{
    static const Kind k[] = {
        {2, 0, 0, 0, 0, 0, 0}, {2, 2, 1, 2, 0, 0, 0}, {2, 2, 1, 2, 0, 0, 3}, {2, 1, 2, 0, 2, 1, 1}, {2, 1, 2, 0, 2, 1, 2},
        {1, 2, 1, 2, 1, 2, 0}, {3, 2, 1, 2, 0, 0, 0}, {3, 1, 2, 0, 2, 1, 3}, {2, 0, 0, 1, 0, 1, 0}};
    return k[c];
}
void sym_main()
{
    int nk = 9;
    int c1 = symChoice("first", nk), c2 = symChoice("second", nk + 1), other = symChoice("other", 2);
    HPIPMInterface<N, M> s;
    int it = 3;
    NLOptConSettings st;
    st.lqoc_solver_settings.num_lqoc_iterations = it;
    s.configure(st);
    auto p = std::make_shared<Prob>(c1 < nk ? kind("", c1).K : 2);
    auto run = [&](int c, const std::string& t, bool refill) {
        Kind k = kind("", c);
        if (refill) fill(*p, k, t);
        static Prob orig;
        if (refill) orig = *p;
        s.setProblem(p);
        s.solve();
        check(orig, k, t);
        assertTrue(hpLog().arg->created && hpLog().arg->iter_max == st.lqoc_solver_settings.num_lqoc_iterations, t + "iterations");
        answer(s, orig, k.K, t);
    };
    run(c1, "a", true);
    if (c2 == nk)
    {
        // the same problem once more, with another iteration limit
        st.lqoc_solver_settings.num_lqoc_iterations = 9;
        s.configure(st);
        run(c1, "a", false);
        return;
    }
    if (other) p = std::make_shared<Prob>(kind("", c2).K);
    run(c2, "b", true);
}
