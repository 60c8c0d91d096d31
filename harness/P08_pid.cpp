// BOUNDS: PID controller: operation histories of length 3 (thorough 4) that start and end with a control computation and go through any of {state feedback, state+derivative feedback, setpoint change, parameter change, reset, initial state, clone-and-continue}, all values symbolic; uMin <= uMax, Imax >= 0, dt > 0
// SYM: budget=240
#include "common.h"
static double clampd(double v, double lo, double hi)
{
    if (v > hi) v = hi;
    if (v < lo) v = lo;
    return v;
}
struct Ref
{
    double kp, ki, kd, dt, Imax, umax, umin, sd, vd, I = 0, prev = 0;
    double step(double x, bool d, double v)
    {
        double e = sd - x;
        I = clampd(I + ki * e * dt, -Imax, Imax);
        double D = kd * (vd - (d ? v : (x - prev) / dt));
        prev = x;
        return clampd(kp * e + I + D, umin, umax);
    }
};
static PIDController<double>::parameters_t par(Ref& r, const std::string& s)
{
    r.kp = symReal("kp" + s);
    r.ki = symReal("ki" + s);
    r.kd = symReal("kd" + s);
    r.dt = symPos("dt" + s, 0.1, 1);
    r.Imax = symReal("Imax" + s, 0, 2);
    sym_assume_le(0, r.Imax);
    r.umax = symReal("umax" + s, 0, 3);
    r.umin = symReal("umin" + s, -3, 0);
    sym_assume_le(r.umin, r.umax);
    return PIDController<double>::parameters_t(r.kp, r.ki, r.kd, r.dt, r.Imax, r.umax, r.umin);
}
void sym_main()
{
    typedef PIDController<double> P;
    Ref r;
    P::parameters_t p = par(r, "");
    r.sd = symReal("sd");
    r.vd = symReal("vd");
    std::shared_ptr<P> c(new P(p, P::setpoint_t(r.sd, r.vd)));
    int L = THOROUGH ? 4 : 3;
    std::vector<int> ops(L, 0);
    int nc = 0;
    for (int i = 1; i < L - 1; i++)
    {
        ops[i] = symChoice("op" + S(i), 8);
        nc += ops[i] < 2;
    }
    // two or more control computations in the middle and at the ends: vary the ends only if there are few
    if (nc == 0)
    {
        ops[0] = symChoice("op0", 2);
        ops[L - 1] = symChoice("opL", 2);
    }
    for (int i = 0; i < L; i++)
    {
        std::string s = S(i);
        int op = ops[i];
        double x = symReal("x" + s), v = symReal("v" + s), t = symReal("t" + s), u = 0;
        switch (op)
        {
            case 0: u = c->computeControl(x, t); assertEq(u, r.step(x, false, 0), "pid-output"); break;
            case 1: u = c->computeControl(x, v, t); assertEq(u, r.step(x, true, v), "pid-output"); break;
            case 2: c->setDesiredState(x); r.sd = x; break;
            case 3: c->setDesiredState(x, v); r.sd = x; r.vd = v; break;
            case 4: c->changeParameters(par(r, s)); break;
            case 5: c->reset(); r.I = 0; r.prev = 0; break;
            case 6: c->setInitialState(x); r.prev = x; break;
            case 7: {
                std::shared_ptr<P> o = c;
                c.reset(o->clone());
                o->computeControl(x, t);
                o->setDesiredState(x);
                break;
            }
        }
        if (op < 2)
        {
            assertLe(u, r.umax, "pid-saturated");
            assertLe(r.umin, u, "pid-saturated");
        }
    }
}
