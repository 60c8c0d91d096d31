// BOUNDS: phase sequences: 1..3 phases (thorough 4) with symbolic start time and durations and symbolic query time (continuous) or small integers (discrete); switched continuous/discrete, linear/nonlinear systems with 2 arbitrary subsystems and 3 phases (a mode repeats)
#include "common.h"
typedef StateVector<2> X;
typedef ControlVector<1> U;
struct ULin : public UFLin<2, 1>
{
    ULin(const std::string& n) : UFLin<2, 1>(n) {}
};
struct DLin : public DiscreteLinearSystem<2, 1>
{
    UFCtrlSys<2, 1> s;
    DLin(const std::string& n) : s(n) {}
    DLin* clone() const override { return new DLin(*this); }
    void getAandB(const X& x, const U& u, const X& xn, const int n, size_t sub, StateMatrix<2>& A, StateControlMatrix<2, 1>& B) override
    {
        A = s.A(x, u, n + 10.0 * sub);
        B = s.B(xn, u, n + 10.0 * sub);
    }
};
void sym_main()
{
    int mode = symChoice("mode", 6);
    X x = symMat<2>("x"), xn = symMat<2>("z");
    U u = symMat<1>("u");
    if (mode == 0)
    {
        int n = 1 + symChoice("n", THOROUGH ? 4 : 3);
        double t0 = symReal("t0");
        ContinuousModeSequence seq(t0);
        std::vector<double> t(1, t0);
        std::vector<size_t> ph;
        for (int i = 0; i < n; i++)
        {
            double d = symPos("d" + S(i), 0.1, 1);
            size_t p = (5 * i + 2) % 7;
            seq.addPhase(p, d);
            t.push_back(t.back() + d);
            ph.push_back(p);
        }
        assertTrue(seq.getNumPhases() == (size_t)n && seq.getNumSwitches() == (size_t)n - 1, "counts");
        assertEq(seq.getTotalDuration(), t.back() - t0, "duration");
        assertTrue(seq.getFirstPhase() == ph.front() && seq.getFinalPhase() == ph.back(), "ends");
        double q = symReal("q", -1, 3);
        int e = 0;
        for (int i = 0; i < n; i++)
            if (!(q < t[i])) e = i;
        assertTrue((int)seq.getIdxFromTime(q) == e, "index-from-time");
        assertTrue(seq.getPhaseFromTime(q) == ph[e], "phase-from-time");
        for (int i = 0; i < n; i++)
        {
            assertEq(seq.getStartTimeFromIdx(i), t[i], "start-time");
            assertEq(seq.getEndTimeFromIdx(i), t[i + 1], "end-time");
            assertTrue(seq.getPhaseFromIdx(i) == ph[i], "phase-from-index");
            // boundaries are half open: a switching time belongs to the later phase
            assertTrue((int)seq.getIdxFromTime(t[i]) == i, "index-at-boundary");
            if (i + 1 < n)
            {
                auto s = seq.getSwitchEventFromIdx(i);
                assertTrue(s.pre_phase == ph[i] && s.post_phase == ph[i + 1], "switch-phases");
                assertEq(s.switch_time, t[i + 1], "switch-time");
            }
        }
        if (e + 1 < n)
        {
            auto s = seq.getSwitchEventFromTime(q);
            assertTrue(s.pre_phase == ph[e] && s.post_phase == ph[e + 1], "switch-from-time");
            assertEq(s.switch_time, t[e + 1], "switch-from-time");
        }
        return;
    }
    if (mode == 1)
    {
        int n0 = symChoice("n0", 3) - 1, d0 = 1 + symChoice("d0", 2), d1 = 1 + symChoice("d1", 2), q = symChoice("q", 8) - 2;
        DiscreteModeSequence seq(n0);
        seq.addPhase(4, d0);
        seq.addPhase(9, d1);
        size_t e = q < n0 + d0 ? 4 : 9;
        assertTrue(seq.getPhaseFromTime(q) == e, "discrete-phase-from-time");
        assertTrue(seq.getTotalDuration() == d0 + d1 && seq.getStartTimeFromIdx(1) == n0 + d0, "discrete-times");
        return;
    }
    int modes[3] = {1, 0, 1};
    bool cl = symChoice("clone", 2);
    if (mode == 2 || mode == 3)
    {
        double t0 = symReal("t0"), d0 = symPos("d0", 0.1, 1), d1 = symPos("d1", 0.1, 1), d2 = symPos("d2", 0.1, 1), t = symReal("t", -1, 3);
        ContinuousModeSequence seq(t0);
        seq.addPhase(1, d0);
        seq.addPhase(0, d1);
        seq.addPhase(1, d2);
        int m = t < t0 + d0 ? 1 : (t < t0 + d0 + d1 ? 0 : 1);
        if (mode == 2)
        {
            typedef SwitchedControlledSystem<2, 1> SS;
            typename SS::SwitchedSystems subs;
            auto f0 = std::make_shared<UFCtrlSys<2, 1>>("f"), f1 = std::make_shared<UFCtrlSys<2, 1>>("g");
            subs.push_back(f0);
            subs.push_back(f1);
            auto k = std::make_shared<UFController<2, 1>>("k");
            bool ctr = symChoice("controller", 2);
            std::shared_ptr<SS> s(ctr ? new SS(subs, seq, k) : new SS(subs, seq));
            if (cl)
            {
                s.reset(s->clone());
                f0->nm = "changed";
                f1->nm = "changed";
            }
            UFCtrlSys<2, 1> r(m ? "g" : "f");
            X d;
            s->computeControlledDynamics(x, t, u, d);
            assertEqM(d, r.f(x, u, t), "switched-dynamics");
            s->computeDynamics(x, t, d);
            U uc = ctr ? k->k(x, t) : U(U::Zero());
            assertEqM(d, r.f(x, uc, t), "switched-closed-loop");
        }
        else
        {
            typedef SwitchedLinearSystem<2, 1> SS;
            typename SS::SwitchedLinearSystems subs;
            auto f0 = std::make_shared<UFLin<2, 1>>("f"), f1 = std::make_shared<UFLin<2, 1>>("g");
            subs.push_back(f0);
            subs.push_back(f1);
            std::shared_ptr<SS> s(new SS(subs, seq));
            if (cl)
            {
                s.reset(s->clone());
                f0->s.nm = "changed";
                f1->s.nm = "changed";
            }
            UFCtrlSys<2, 1> r(m ? "g" : "f");
            assertEqM(s->getDerivativeState(x, u, t), r.A(x, u, t), "switched-A");
            assertEqM(s->getDerivativeControl(x, u, t), r.B(x, u, t), "switched-B");
            X d;
            s->computeControlledDynamics(x, t, u, d);
            assertEqM(d, X(r.A(x, u, t) * x + r.B(x, u, t) * u), "switched-linear-dynamics");
        }
        return;
    }
    int q = symChoice("q", 7) - 1;
    DiscreteModeSequence seq(0);
    seq.addPhase(1, 2);
    seq.addPhase(0, 1);
    seq.addPhase(1, 2);
    int m = q < 2 ? 1 : (q < 3 ? 0 : 1);
    X d;
    if (mode == 4)
    {
        typedef SwitchedDiscreteControlledSystem<2, 1> SS;
        typename SS::SwitchedSystems subs;
        auto f0 = std::make_shared<UFDiscSys<2, 1>>("f"), f1 = std::make_shared<UFDiscSys<2, 1>>("g");
        subs.push_back(f0);
        subs.push_back(f1);
        auto k = std::make_shared<UFDiscController<2, 1>>("k");
        bool ctr = symChoice("controller", 2);
        std::shared_ptr<SS> s(ctr ? new SS(subs, seq, k) : new SS(subs, seq));
        if (cl)
        {
            s.reset(s->clone());
            f0->nm = "changed";
            f1->nm = "changed";
        }
        UFDiscSys<2, 1> r(m ? "g" : "f");
        s->propagateControlledDynamics(x, q, u, d);
        assertEqM(d, r.F(x, q, u), "switched-propagation");
        s->propagateDynamics(x, q, d);
        assertEqM(d, r.F(x, q, ctr ? k->k(x, q) : U(U::Zero())), "switched-closed-loop-propagation");
    }
    else
    {
        typedef SwitchedDiscreteLinearSystem<2, 1> SS;
        typename SS::SwitchedLinearSystems subs;
        auto f0 = std::make_shared<DLin>("f"), f1 = std::make_shared<DLin>("g");
        subs.push_back(f0);
        subs.push_back(f1);
        std::shared_ptr<SS> s(new SS(subs, seq));
        if (cl)
        {
            s.reset(s->clone());
            f0->s.nm = "changed";
            f1->s.nm = "changed";
        }
        UFCtrlSys<2, 1> r(m ? "g" : "f");
        StateMatrix<2> A;
        StateControlMatrix<2, 1> B;
        s->getAandB(x, u, xn, q, 3, A, B);
        assertEqM(A, r.A(x, u, q + 30.0), "switched-discrete-A");
        assertEqM(B, r.B(xn, u, q + 30.0), "switched-discrete-B");
        s->propagateControlledDynamics(x, q, u, d);
        assertEqM(d, X(r.A(x, u, q + 10.0) * x + r.B(x, u, q + 10.0) * u), "switched-discrete-linear-propagation");
    }
}
