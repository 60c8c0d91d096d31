// BOUNDS: externally timed MPC time keeper: first run and two further runs (optionally re-initialised in between), symbolic clock readings, horizons, multiplier; delay settings 0/fixed/additional/measured; all four horizon modes
// SYM: budget=300
#include "ocommon.h"
struct Probe : public MpcTimeHorizon
{
    double a = -7, b = -7, ret = 0;
    bool done = false;
    using MpcTimeHorizon::MpcTimeHorizon;
    bool computeNewTimeHorizon(const double& since, const double& stop, double& nT) override
    {
        a = since;
        b = stop;
        nT = ret;
        return done;
    }
};
void sym_main()
{
    mpc_settings st;
    st.useExternalTiming_ = true;
    int dl = symChoice("delay", 4);
    st.measureDelay_ = dl == 3;
    st.fixedDelayUs_ = dl ? 30000 : 0;
    st.additionalDelayUs_ = dl >= 2 ? 250000 : 0;
    st.delayMeasurementMultiplier_ = symIn("mult", 0, 2);
    double del = dl == 0 ? 0 : dl == 1 ? 0.03 : 0.28;
    auto hz = std::make_shared<Probe>(st, 1.0);
    MpcTimeKeeper k(hz, st);
    double nT, a, b;
    assertTrue(throws([&] { k.computeNewTimings(0, 1, nT, a, b); }), "uninitialised-throws");
    k.initialize();
    double t = symReal("t0", -1, 5), measured = 0, mx = 0, mn = 1e300, sum = 0, first = 0, last = 0;
    bool ran = false;
    int re = symChoice("reinit", 2);
    for (int i = 0; i < 3; i++)
    {
        std::string l = "run" + ::S(i) + ".";
        if (re && i == 2)
        {
            k.initialize();
            ran = false;
            measured = 0, mx = 0, mn = 1e300, sum = 0;
            assertTrue(!k.finalPointReached(), l + "reinit-not-final");
        }
        double T = symPos("T" + ::S(i));
        hz->ret = symReal("n" + ::S(i));
        hz->done = symChoice("done" + ::S(i), 2);
        k.computeNewTimings(t, T, nT, a, b);
        double ea = ran ? t - last : 0, eb = ran ? ea + (dl == 3 ? 0.25 + st.delayMeasurementMultiplier_ * measured : del) : 0;
        if (ea > T) ea = T;
        if (eb > T) eb = T;
        assertEq(a, ea, l + "forward-start");
        assertEq(b, eb, l + "forward-stop");
        assertLe(a, b, l + "start<=stop");
        assertEq(nT, hz->ret, l + "horizon");
        assertTrue(k.finalPointReached() == hz->done, l + "final");
        assertEq(hz->a, ran ? t - first : 0, l + "since-first");
        assertEq(hz->b, eb, l + "strategy-stop");
        double d1 = symIn("d" + ::S(i), 0, 1), d2 = symIn("e" + ::S(i), 0, 1), d3 = symIn("f" + ::S(i), 0, 1);
        t = t + d1;
        assertEq(k.timeSincePreviousSuccessfulSolve(t), ran ? t - last : 0, l + "since-previous");
        k.startDelayMeasurement(t);
        t = t + d2;
        k.stopDelayMeasurement(t);
        measured = dl == 3 ? d2 : 0;
        if (measured > mx) mx = measured;
        if (measured < mn) mn = measured;
        sum = sum + measured;
        last = t;
        if (!ran) first = t;
        ran = true;
        assertEq(k.getMeasuredDelay(), measured, l + "measured");
        assertEq(k.getMaxMeasuredDelay(), mx, l + "max");
        assertEq(k.getMinMeasuredDelay(), mn, l + "min");
        assertEq(k.getSummedDelay(), sum, l + "sum");
        t = t + d3;
        assertEq(k.timeSinceFirstSuccessfulSolve(t), t - first, l + "since-first-query");
    }
}
