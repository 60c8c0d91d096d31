// BOUNDS: one evaluation of the four default time-horizon strategies after arbitrary settings and initial-horizon updates; symbolic initial horizon, minimum horizon, elapsed and prediction times
#include "ocommon.h"
void sym_main()
{
    mpc_settings st, other;
    int mode = symChoice("mode", 4);
    other.mpc_mode = (MPC_MODE)symChoice("mode0", 4);
    other.minimumTimeHorizonMpc_ = symPos("min0");
    st.mpc_mode = (MPC_MODE)mode;
    st.minimumTimeHorizonMpc_ = symPos("min");
    double T = symPos("T", 0.1, 4), T0 = symPos("T0"), since = symReal("since", 0, 4), stop = symReal("stop", 0, 2);
    sym_assume_le(0, since);
    sym_assume_le(0, stop);
    int upd = symChoice("update", 3);
    MpcTimeHorizon h(upd == 1 ? other : st, upd == 2 ? T0 : T);
    if (upd == 1) h.updateSettings(st);
    if (upd == 2) h.updateInitialTimeHorizon(T);
    double n = -1;
    bool done = h.computeNewTimeHorizon(since, stop, n);
    double left = T - since - stop;
    if (left < 0) left = 0;
    double m = st.minimumTimeHorizonMpc_;
    double e = 0;
    bool d = false;
    switch (mode)
    {
        case CONSTANT_RECEDING_HORIZON: e = T; break;
        case FIXED_FINAL_TIME: e = left; d = !(left > 0); break;
        case FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON: e = left > m ? left : m; d = !(left > m); break;
        case RECEDING_HORIZON_WITH_FIXED_FINAL_TIME: e = left < m ? left : m; d = !(left > 0); break;
    }
    assertEq(n, e, "mode" + ::S(mode) + ".horizon");
    assertTrue(done == d, "mode" + ::S(mode) + ".final-reached");
}
