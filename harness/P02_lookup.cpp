// BOUNDS: trajectory lookup: 1..4 samples (quick) / 1..5 (thorough), strictly increasing symbolic times, 2-dim symbolic data, three successive queries with arbitrary edits, assignments and swaps in between
#include "common.h"
typedef StateVector<2> X;
static X ref(const std::vector<double>& t, const std::vector<X, Eigen::aligned_allocator<X>>& d, double q, bool lin)
{
    int n = t.size();
    if (q < t[0]) return d[0];
    for (int i = 0; i + 1 < n; i++)
        if (q < t[i + 1])
        {
            if (!lin) return d[i];
            double w = (q - t[i]) / (t[i + 1] - t[i]);
            return X((1 - w) * d[i] + w * d[i + 1]);
        }
    return d[n - 1];
}
void sym_main()
{
    int n = 1 + symChoice("n", THOROUGH ? 5 : 4);
    bool lin = symChoice("lin", 2);
    int edit = symChoice("edit", 9);
    TimeArray ta;
    StateVectorArray<2> da;
    std::vector<double> t;
    std::vector<X, Eigen::aligned_allocator<X>> d;
    for (int i = 0; i < n; i++)
    {
        double ti = symReal("t" + S(i), i, i + 0.9);
        if (i) sym_assume_lt(t[i - 1], ti);
        X x;
        x << symReal("a" + S(i)), symReal("b" + S(i));
        t.push_back(ti);
        d.push_back(x);
        ta.push_back(ti);
        da.push_back(x);
    }
    InterpolationType ty = lin ? LIN : ZOH;
    StateTrajectory<2> tr(ta, da, ty);
    if (edit == 7)
    {
        // uniformly spaced samples
        double h = symPos("h"), t0 = symReal("tstart");
        if (n < 2) return;
        StateTrajectory<2> un(da, h, t0, ty);
        tr = un;
        for (int i = 0; i < n; i++) t[i] = t0 + i * h;
        n = std::min(n, 3);
        double q = symReal("q0", -1, n);
        assertEqM(un.eval(q), ref(t, d, q, lin), "uniform-lookup");
        for (size_t i = 0; i < t.size(); i++) assertEq(tr.getTimeFromIndex(i), t[i], "uniform-times");
        return;
    }
    if (edit == 8)
    {
        TimeArray tv(t);
        assertTrue(tv.size() == t.size(), "times-from-vector-size");
        tr = StateTrajectory<2>(tv, da, ty);
    }
    double q0 = symReal("q0", -1, n), q1 = symReal("q1", -1, n);
    tr.eval(q0);  // arbitrary previous lookup
    if (edit == 1 && n > 1)
    {
        double off = symReal("off");
        tr.eraseFront(1, off);
        t.erase(t.begin());
        d.erase(d.begin());
        for (auto& x : t) x = x - off;
    }
    else if (edit == 2)
    {
        X x;
        x << symReal("an"), symReal("bn");
        double dtn = symPos("dtn");
        tr.push_back(x, dtn, false);
        t.push_back(t.back() + dtn);
        d.push_back(x);
    }
    else if (edit == 3 && n > 1)
    {
        tr.pop_back();
        t.pop_back();
        d.pop_back();
    }
    else if (edit == 4)
    {
        // another interpolation rule on the same samples; a copy is independent of the original
        StateTrajectory<2> cp(tr);
        lin = !lin;
        cp.setInterpolationType(lin ? LIN : ZOH);
        assertEqM(tr.eval(q1), ref(t, d, q1, !lin), "original-after-copy");
        assertEqM(cp.eval(q1), ref(t, d, q1, lin), "copy");
        return;
    }
    else if (edit == 5 || edit == 6)
    {
        // another trajectory with its own history takes over the samples (and, when assigned, the interpolation)
        TimeArray tb;
        StateVectorArray<2> db;
        for (int i = 0; i < 2; i++)
        {
            tb.push_back(symReal("tb" + S(i), i, i + 0.9));
            db.push_back(X(symMat<2>("z" + S(i))));
        }
        sym_assume_lt(tb[0], tb[1]);
        StateTrajectory<2> ot(tb, db, symChoice("otherlin", 2) ? LIN : ZOH);
        double qo = symReal("qo", -1, 2);
        ot.eval(qo);
        if (edit == 5)
        {
            ot = tr;
            tr = tr;
        }
        else
        {
            ot.setInterpolationType(ty);
            ot.swapData(tr);
            assertTrue(tr.size() == 2 && tr.getTimeFromIndex(1) == tb[1], "swapped");
            assertEqM(tr[1], db[1], "swapped-data");
        }
        assertTrue(ot.size() == t.size(), "taken-over-size");
        assertEqM(ot.eval(q1), ref(t, d, q1, lin), "taken-over");
        assertEq(ot.finalTime(), t.back(), "taken-over-final");
        if (edit == 6) return;
    }
    assertTrue(tr.size() == t.size(), "size");
    assertEqM(tr.eval(q1), ref(t, d, q1, lin), "lookup");
    if (edit == 0 && n <= 3)
    {
        double q2 = symReal("q2", -1, n);
        assertEqM(tr.eval(q2), ref(t, d, q2, lin), "lookup-again");
        // index of a time: greatest sample not after it, first sample if before all
        int e = 0;
        for (int i = 0; i < (int)t.size(); i++)
            if (t[i] <= q2) e = i;
        assertTrue((int)tr.getIndexFromTime(q2) == e, "index");
    }
    assertEq(tr.startTime(), t.front(), "start");
    assertEq(tr.finalTime(), t.back(), "final");
    assertEq(tr.duration(), t.back() - t.front(), "duration");
}
