// BOUNDS: control simulator with 1 state, 1 control, up to 3 control intervals on a virtual clock; control interval a multiple of the simulation step or not; every schedule of the system, controller and calling thread with at most 1 (thorough: 2) deviations from run-until-blocked at mutex, atomic, thread and clock operations; optional stop request and second run; arbitrary dynamics f(x,u,t), symbolic start state and control
// SYM: budget=300 maxpaths=30000 sched=1
#include "common.h"
#include <ct/core/simulation/ControlSimulator.h>
extern "C" void sym_sched_delays(int d);
extern "C" void sym_sched_clock(long long tick);
extern "C" size_t sym_sched_running();
const size_t N = 1, M = 1;
struct Sys : public UFCtrlSys<N, M>
{
    static const size_t STATE_DIM = N, CONTROL_DIM = M;
    typedef double SCALAR;
    Sys* clone() const override { return new Sys(*this); }
};
struct Sim : public ControlSimulator<Sys>
{
    Sim(double a, double b, const StateVector<N>& c, std::shared_ptr<Sys> d) : ControlSimulator<Sys>(a, b, c, d) {}
    Sim(const Sim& o) : ControlSimulator<Sys>(o) {}
    ~Sim() { this->finish(); }
    std::vector<double> t, x, seen, pre, post;
    void finishSystemIteration(Time s) override
    {
        t.push_back(s);
        x.push_back(this->x_(0));
    }
    void prepareControllerIteration(Time s) override { pre.push_back(s); }
    void finishControllerIteration(Time s) override
    {
        post.push_back(s);
        this->state_mtx_.lock();
        seen.push_back(this->x_(0));
        this->state_mtx_.unlock();
    }
};
// one control interval: explicit Euler with the simulation step, last step shortened
double interval(bool rk4, const Sys& s, double x, double t, double T, double dt, const ControlVector<M>& u)
{
    StateVector<N> v;
    v(0) = x;
    int n = (int)(T / dt);
    double r = T - n * dt;
    for (int i = 0; i < n + (r > 0); i++)
    {
        double h = i < n ? dt : r, ti = t + i * dt;
        if (!rk4)
        {
            v = StateVector<N>(v + h * s.f(v, u, ti));
            continue;
        }
        StateVector<N> k1 = s.f(v, u, ti), k2 = s.f(StateVector<N>(v + 0.5 * h * k1), u, ti + 0.5 * h);
        StateVector<N> k3 = s.f(StateVector<N>(v + 0.5 * h * k2), u, ti + 0.5 * h), k4 = s.f(StateVector<N>(v + h * k3), u, ti + h);
        v = StateVector<N>(v + h / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4));
    }
    return v(0);
}
void sym_main()
{
    int res = symChoice("residue", 2), stop = symChoice("stop", 2), again = symChoice("again", 2), rk4 = symChoice("rk4", 2);
    const double T = res ? 0.3125 : 0.25, dt = 0.125;
    auto sys = std::make_shared<Sys>();
    ControlVector<M> u(symMat<M>("u"));
    sys->setController(std::make_shared<ConstantController<N, M>>(u));
    StateVector<N> x0(symMat<N>("x0"));
    assertTrue(throws([&] { Sim bad(0.0, T, x0, sys); }), "zero-step-rejected");
    assertTrue(throws([&] { Sim bad(T, dt, x0, sys); }), "step-longer-than-control-rejected");
    sym_sched_clock(20000000);
    Sim orig(dt, T, x0, sys);
    std::unique_ptr<Sim> cp(symChoice("copy", 2) ? new Sim(orig) : nullptr);
    Sim& s = cp ? *cp : orig;
    for (int run = 0; run <= again; run++)
    {
        s.t.clear();
        s.x.clear();
        s.seen.clear();
        s.pre.clear();
        s.post.clear();
        sym_sched_delays(run ? 0 : THOROUGH ? 2 : 1);
        if (rk4)
            s.simulate(0.55, RK4CT);
        else
            s.simulate(0.55);
        if (stop) s.stop();
        s.finish();
        assertTrue(sym_sched_running() == 1, "threads-joined");
        double x = x0(0);
        std::vector<double> xs(1, x);
        for (size_t i = 0; i < s.t.size(); i++)
        {
            x = interval(rk4, *sys, x, i * T, T, dt, u);
            xs.push_back(x);
            assertEq(s.t[i], (i + 1) * T, "time" + ::S(i));
            assertEq(s.x[i], x, "state" + ::S(i));
        }
        // the controller sees complete states, in order
        size_t at = 0;
        for (size_t i = 0; i < s.seen.size(); i++)
        {
            bool found = false;
            for (size_t k = at; k < xs.size() && !found; k++)
                if (std::memcmp(&xs[k], &s.seen[i], sizeof(double)) == 0) { found = true; at = k; }
            if (!sym_is_replay()) assertTrue(found, "controller-sees-state");
        }
        assertTrue(s.pre.size() == s.post.size(), "prepare-finish");
        for (size_t i = 0; i < s.pre.size() && i < s.post.size(); i++)
        {
            assertLe(s.pre[i], s.post[i], "clock-order");
            assertLt(s.pre[i], 0.55 + 0.05, "duration");
        }
    }
}
