// Stand-in for the part of the HPIPM C interface that the toolbox uses. It keeps a copy of the quadratic program it is
// handed (with the sizes announced for it, as the real library copies it) and answers with an arbitrary solution.
#pragma once
#include <string>
#include <vector>
#include "sym.h"
typedef std::vector<double> HpVec;
typedef std::vector<int> HpIdx;
struct d_ocp_qp_dim
{
    int N = -1;
    HpIdx nx, nu, nbx, nbu, ng, ns;
};
struct d_ocp_qp
{
    d_ocp_qp_dim* dim = nullptr;
    std::vector<HpVec> A, B, b, Q, S, R, q, r, lbx, ubx, lbu, ubu, C, D, lg, ug, mlbx, mubx, mlbu, mubu, mlg, mug;
    std::vector<HpIdx> idxbx, idxbu;
    int version = 0;
};
struct d_ocp_qp_sol
{
    d_ocp_qp_dim* dim = nullptr;
    std::string tag;
};
struct d_ocp_qp_ipm_arg
{
    int iter_max = -1;
    bool created = false;
};
struct d_ocp_qp_ipm_ws
{
    int iter = 0;
    double* stat = nullptr;
    std::string tag;
    d_ocp_qp_dim* dim = nullptr;
    int solved_iter_max = -1;
};
enum hpipm_mode
{
    SPEED_ABS,
    SPEED,
    BALANCE,
    ROBUST
};
struct HpLog
{
    int solves = 0, next_status = 0;
    const d_ocp_qp* qp = nullptr;
    const d_ocp_qp_ipm_arg* arg = nullptr;
};
inline HpLog& hpLog()
{
    static HpLog l;
    return l;
}
inline int d_ocp_qp_dim_memsize(int) { return 8; }
inline void d_ocp_qp_dim_create(int N, d_ocp_qp_dim* d, void*) { *d = d_ocp_qp_dim(), d->N = N; }
inline void d_ocp_qp_dim_set_all(int* nx, int* nu, int* nbx, int* nbu, int* ng, int* nsbx, int* nsbu, int* nsg, d_ocp_qp_dim* d)
{
    for (int i = 0; i <= d->N; i++)
    {
        d->nx.push_back(nx[i]);
        d->nu.push_back(nu[i]);
        d->nbx.push_back(nbx[i]);
        d->nbu.push_back(nbu[i]);
        d->ng.push_back(ng[i]);
        d->ns.push_back(nsbx[i] + nsbu[i] + nsg[i]);
    }
}
inline int d_ocp_qp_memsize(d_ocp_qp_dim*) { return 8; }
inline void d_ocp_qp_create(d_ocp_qp_dim* d, d_ocp_qp* qp, void*)
{
    *qp = d_ocp_qp();
    qp->dim = d;
    for (int i = 0; i <= d->N; i++)
    {
        qp->mlbx.push_back(HpVec(d->nbx[i], 1.0));
        qp->mubx.push_back(HpVec(d->nbx[i], 1.0));
        qp->mlbu.push_back(HpVec(d->nbu[i], 1.0));
        qp->mubu.push_back(HpVec(d->nbu[i], 1.0));
        qp->mlg.push_back(HpVec(d->ng[i], 1.0));
        qp->mug.push_back(HpVec(d->ng[i], 1.0));
    }
}
template <typename T>
inline std::vector<T> hpCopy(const T* p, int n)
{
    std::vector<T> r(n);
    for (int i = 0; i < n; i++) r[i] = p[i];
    return r;
}
inline void d_ocp_qp_set_all(double** A, double** B, double** b, double** Q, double** S, double** R, double** q, double** r,
    int** idxbx, double** lbx, double** ubx, int** idxbu, double** lbu, double** ubu, double** C, double** D, double** lg,
    double** ug, double**, double**, double**, double**, int**, double**, double**, d_ocp_qp* qp)
{
    const d_ocp_qp_dim& d = *qp->dim;
    d_ocp_qp o = *qp;
    *qp = d_ocp_qp();
    qp->dim = o.dim;
    qp->version = o.version + 1;
    qp->mlbx = o.mlbx, qp->mubx = o.mubx, qp->mlbu = o.mlbu, qp->mubu = o.mubu, qp->mlg = o.mlg, qp->mug = o.mug;
    for (int i = 0; i < d.N; i++)
    {
        qp->A.push_back(hpCopy(A[i], d.nx[i + 1] * d.nx[i]));
        qp->B.push_back(hpCopy(B[i], d.nx[i + 1] * d.nu[i]));
        qp->b.push_back(hpCopy(b[i], d.nx[i + 1]));
    }
    for (int i = 0; i <= d.N; i++)
    {
        qp->Q.push_back(hpCopy(Q[i], d.nx[i] * d.nx[i]));
        qp->S.push_back(hpCopy(S[i], d.nu[i] * d.nx[i]));
        qp->R.push_back(hpCopy(R[i], d.nu[i] * d.nu[i]));
        qp->q.push_back(hpCopy(q[i], d.nx[i]));
        qp->r.push_back(hpCopy(r[i], d.nu[i]));
        qp->idxbx.push_back(hpCopy(idxbx[i], d.nbx[i]));
        qp->lbx.push_back(hpCopy(lbx[i], d.nbx[i]));
        qp->ubx.push_back(hpCopy(ubx[i], d.nbx[i]));
        qp->idxbu.push_back(hpCopy(idxbu[i], d.nbu[i]));
        qp->lbu.push_back(hpCopy(lbu[i], d.nbu[i]));
        qp->ubu.push_back(hpCopy(ubu[i], d.nbu[i]));
        qp->C.push_back(hpCopy(C[i], d.ng[i] * d.nx[i]));
        qp->D.push_back(hpCopy(D[i], d.ng[i] * d.nu[i]));
        qp->lg.push_back(hpCopy(lg[i], d.ng[i]));
        qp->ug.push_back(hpCopy(ug[i], d.ng[i]));
    }
}
#define HP_MASK(F, N) \
    inline void d_ocp_qp_set_##F##_mask(int i, double* m, d_ocp_qp* qp) { qp->m##F[i] = hpCopy(m, qp->dim->N[i]); }
HP_MASK(lbx, nbx)
HP_MASK(ubx, nbx)
HP_MASK(lbu, nbu)
HP_MASK(ubu, nbu)
HP_MASK(lg, ng)
HP_MASK(ug, ng)
inline int d_ocp_qp_sol_memsize(d_ocp_qp_dim*) { return 8; }
inline void d_ocp_qp_sol_create(d_ocp_qp_dim* d, d_ocp_qp_sol* s, void*) { *s = d_ocp_qp_sol(), s->dim = d; }
inline int d_ocp_qp_ipm_arg_memsize(d_ocp_qp_dim*) { return 8; }
inline void d_ocp_qp_ipm_arg_create(d_ocp_qp_dim*, d_ocp_qp_ipm_arg* a, void*) { *a = d_ocp_qp_ipm_arg(), a->created = true; }
inline void d_ocp_qp_ipm_arg_set_default(hpipm_mode, d_ocp_qp_ipm_arg* a) { a->iter_max = 15; }
inline void d_ocp_qp_ipm_arg_set_iter_max(int* n, d_ocp_qp_ipm_arg* a) { a->iter_max = *n; }
inline int d_ocp_qp_ipm_ws_memsize(d_ocp_qp_dim*, d_ocp_qp_ipm_arg*) { return 8; }
inline void d_ocp_qp_ipm_ws_create(d_ocp_qp_dim* d, d_ocp_qp_ipm_arg*, d_ocp_qp_ipm_ws* w, void*) { *w = d_ocp_qp_ipm_ws(), w->dim = d; }
inline void d_ocp_qp_ipm_solve(d_ocp_qp* qp, d_ocp_qp_sol* s, d_ocp_qp_ipm_arg* a, d_ocp_qp_ipm_ws* w)
{
    hpLog().solves++;
    hpLog().qp = qp;
    hpLog().arg = a;
    w->solved_iter_max = a->iter_max;
    s->tag = w->tag = "sol" + S(hpLog().solves);
}
inline void d_ocp_qp_ipm_get_status(d_ocp_qp_ipm_ws*, int* s) { *s = 0; }
inline void d_ocp_qp_ipm_get_iter(d_ocp_qp_ipm_ws* w, int* i) { *i = w->iter; }
inline double hpVal(const std::string& tag, const char* what, int stage, int i)
{
    return symReal(tag + what + S(stage) + "_" + S(i));
}
inline void hpFill(const std::string& tag, const char* what, int stage, int n, double* out)
{
    for (int i = 0; i < n; i++) out[i] = hpVal(tag, what, stage, i);
}
inline void d_ocp_qp_sol_get_u(int i, d_ocp_qp_sol* s, double* u) { hpFill(s->tag, "u", i, s->dim->nu[i], u); }
inline void d_ocp_qp_sol_get_x(int i, d_ocp_qp_sol* s, double* x) { hpFill(s->tag, "x", i, s->dim->nx[i], x); }
inline void d_ocp_qp_ipm_get_ric_Lr(d_ocp_qp*, d_ocp_qp_ipm_arg*, d_ocp_qp_ipm_ws* w, int i, double* o)
{
    // lower triangular with positive diagonal; the entries above it are left unspecified by the library
    int n = w->dim->nu[i];
    for (int c = 0; c < n; c++)
        for (int r = 0; r < n; r++)
            o[r + n * c] = r == c ? symPos(w->tag + "Lr" + S(i) + "_" + S(r)) : hpVal(w->tag, "Lr", i, 100 + r + n * c);
}
inline void d_ocp_qp_ipm_get_ric_K(d_ocp_qp*, d_ocp_qp_ipm_arg*, d_ocp_qp_ipm_ws* w, int i, double* o) { hpFill(w->tag, "K", i, w->dim->nu[i] * w->dim->nx[i], o); }
inline void d_ocp_qp_ipm_get_ric_k(d_ocp_qp*, d_ocp_qp_ipm_arg*, d_ocp_qp_ipm_ws* w, int i, double* o) { hpFill(w->tag, "k", i, w->dim->nu[i], o); }
inline void d_ocp_qp_ipm_get_ric_P(d_ocp_qp*, d_ocp_qp_ipm_arg*, d_ocp_qp_ipm_ws* w, int i, double* o)
{
    int n = w->dim->nx[i];
    for (int c = 0; c < n; c++)
        for (int r = 0; r < n; r++) o[r + n * c] = hpVal(w->tag, "P", i, std::min(r, c) * 10 + std::max(r, c));
}
inline void d_print_mat(int, int, double*, int) {}
