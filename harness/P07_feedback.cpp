// BOUNDS: feedback controllers: state dim 2, control dim 1-2, horizon up to 2 (thorough 3) stages, symbolic gains/references/feedforward/times and query time; ZOH and linear interpolation; construction, update, clone, extraction
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<2> U;
typedef FeedbackMatrix<2, 2> K;
template <typename T>
static T interp(const std::vector<double>& t, const std::vector<T, Eigen::aligned_allocator<T>>& d, double q, bool lin)
{
    int n = d.size();
    if (q < t[0]) return d[0];
    for (int i = 0; i + 1 < n; i++)
        if (q < t[i + 1])
        {
            if (!lin) return d[i];
            double w = (q - t[i]) / (t[i + 1] - t[i]);
            return T((1 - w) * d[i] + w * d[i + 1]);
        }
    return d[n - 1];
}
template <typename T>
using V = std::vector<T, Eigen::aligned_allocator<T>>;
void sym_main()
{
    int mode = symChoice("mode", 4);
    X x = symMat<2>("x");
    if (mode == 3)
    {
        U uff = symMat<2>("uf"), uff2 = symMat<2>("ug"), u;
        X xr = symMat<2>("xr"), xr2 = symMat<2>("xs");
        K k = symMat<2, 2>("K"), k2 = symMat<2, 2>("L");
        double t = symReal("t");
        ConstantStateFeedbackController<2, 2> c(uff, xr, k);
        c.computeControl(x, t, u);
        assertEqM(u, U(uff + k * (x - xr)), "constant-feedback");
        std::shared_ptr<ConstantStateFeedbackController<2, 2>> d(c.clone());
        c.updateControlLaw(uff2, xr2, k2);
        c.computeControl(x, t, u);
        assertEqM(u, U(uff2 + k2 * (x - xr2)), "constant-feedback-updated");
        d->computeControl(x, t, u);
        assertEqM(u, U(uff + k * (x - xr)), "constant-feedback-clone");
        c.updateControlLaw(uff, xr);
        c.computeControl(x, t, u);
        assertEqM(u, uff, "constant-feedforward-only");
        ConstantStateFeedbackController<2, 2> z;
        z.computeControl(x, t, u);
        assertEqM(u, U(U::Zero()), "constant-default-zero");
        StepInputController::Parameters p(symReal("gain"), symReal("tstep"));
        StepInputController s(p);
        StateVector<1> xx;
        xx << x(0);
        ControlVector<1> uu;
        s.computeControl(xx, t, uu);
        assertEq(uu(0), t < p.t_step ? 0.0 : p.gain, "step-input");
        return;
    }
    int n = 1 + symChoice("n", THOROUGH ? 3 : 2);
    bool lin = symChoice("lin", 2);
    double t0 = symReal("t0"), dt = symPos("dt", 0.1, 1);
    V<X> xr;
    V<U> uf;
    V<K> k;
    StateVectorArray<2> xa;
    ControlVectorArray<2> ua;
    FeedbackArray<2, 2> ka;
    TimeArray ta;
    std::vector<double> tx, tu;
    double ti = t0;
    for (int i = 0; i <= n; i++)
    {
        xr.push_back(symMat<2>("r" + S(i) + "_"));
        xa.push_back(xr.back());
        ta.push_back(ti);
        tx.push_back(ti);
        if (i < n)
        {
            uf.push_back(symMat<2>("f" + S(i) + "_"));
            k.push_back(symMat<2, 2>("K" + S(i) + "_"));
            ua.push_back(uf.back());
            ka.push_back(k.back());
            tu.push_back(ti);
        }
        ti = mode == 0 ? t0 + (i + 1) * dt : ti + symPos("d" + S(i), 0.1, 1);
    }
    std::shared_ptr<StateFeedbackController<2, 2>> c;
    if (mode == 0)
    {
        // uniform grid constructor
        c.reset(new StateFeedbackController<2, 2>(xa, ua, ka, dt, t0, lin ? LIN : ZOH));
    }
    else
    {
        StateVectorArray<2> xd(1, X(X::Zero()));
        ControlVectorArray<2> ud(1, U(U::Zero()));
        FeedbackArray<2, 2> kd(1, K(K::Zero()));
        c.reset(new StateFeedbackController<2, 2>(xd, ud, kd, 1.0, 0.0, lin ? LIN : ZOH));
        c->update(xa, ua, ka, ta);
        if (mode == 2)
        {
            std::shared_ptr<StateFeedbackController<2, 2>> orig = c;
            c.reset(orig->clone());
            StateVectorArray<2> xb = xa;
            xb[0] += X::Ones();
            orig->update(xb, ua, ka, ta);
        }
        TimeArray bad = ta;
        bad.push_back(ti);
        assertTrue(throws([&] { StateFeedbackController<2, 2> q(*c); q.update(xa, ua, ka, bad); }), "update-size-mismatch-throws");
        ControlVectorArray<2> ub = ua;
        ub.push_back(U(U::Zero()));
        assertTrue(throws([&] { StateFeedbackController<2, 2> q(*c); q.update(xa, ub, ka, ta); }), "update-size-mismatch-throws");
        FeedbackArray<2, 2> kb = ka;
        kb.push_back(K(K::Zero()));
        assertTrue(throws([&] { StateFeedbackController<2, 2> q(*c); q.update(xa, ua, kb, ta); }), "update-size-mismatch-throws");
    }
    U u;
    for (int i = 0; i < n; i++)
    {
        c->computeControl(x, i, u);
        assertEqM(u, U(uf[i] + k[i] * (x - xr[i])), "feedback-at-stage");
    }
    double q = symReal("q", -1, 4);
    c->computeControl(x, q, u);
    assertEqM(u, U(interp<U>(tu, uf, q, lin) + interp<K>(tu, k, q, lin) * (x - interp<X>(tx, xr, q, lin))), "feedback-at-time");
    assertTrue(c->x_ref().size() == xr.size() && c->uff().size() == uf.size() && c->K().size() == k.size() && c->time().size() == tx.size(), "lengths");
    for (int i = 0; i <= n; i++) assertEq(c->time()[i], tx[i], "times");
    // controls along another trajectory
    StateVectorArray<2> ya;
    V<X> y;
    for (int i = 0; i <= n; i++)
    {
        y.push_back(symMat<2>("y" + S(i) + "_"));
        ya.push_back(y.back());
    }
    TimeArray tya = ta;
    StateTrajectory<2> yt(tya, ya, ZOH);
    ControlTrajectory<2> ut;
    ut.push_back(U(U::Zero()), 0.0, true);
    c->extractControlTrajectory(yt, ut);
    assertTrue((int)ut.size() == n, "extract-length");
    for (int i = 0; i < n && i < (int)ut.size(); i++)
    {
        assertEqM(ut[i], U(uf[i] + k[i] * (y[i] - xr[i])), "extract-control");
        assertEq(ut.getTimeFromIndex(i), tx[i], "extract-time");
    }
}
