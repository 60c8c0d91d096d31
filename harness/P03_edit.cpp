// BOUNDS: trajectory/array editing: 3 samples, sequences of 3 (quick) / 4 (thorough) edits out of 9 kinds, symbolic data, times and offsets
#include "common.h"
typedef StateVector<2> X;
typedef std::vector<X, Eigen::aligned_allocator<X>> XV;
static void same(StateTrajectory<2>& tr, const std::vector<double>& t, const XV& d, const std::string& l)
{
    assertTrue(tr.getTimeArray().size() == t.size() && tr.getDataArray().size() == d.size(), l + "-length");
    if (tr.getTimeArray().size() != t.size() || tr.getDataArray().size() != d.size()) return;
    for (size_t i = 0; i < t.size(); i++)
    {
        assertEq(tr.getTimeFromIndex(i), t[i], l + "-time");
        assertEqM(tr[i], d[i], l + "-data");
    }
    if (!t.empty())
    {
        assertEqM(tr.front(), d.front(), l + "-front");
        assertEqM(tr.back(), d.back(), l + "-back");
    }
}
void sym_main()
{
    TimeArray ta;
    StateVectorArray<2> da;
    std::vector<double> t;
    XV d;
    int ctor = symChoice("ctor", 2);
    double t0 = symReal("t0"), dt = symPos("dt");
    for (int i = 0; i < 3; i++)
    {
        X x;
        x << symReal("a" + S(i)), symReal("b" + S(i));
        d.push_back(x);
        da.push_back(x);
        double ti = ctor ? t0 + i * dt : symReal("t" + S(i));
        t.push_back(ti);
        ta.push_back(ti);
    }
    StateTrajectory<2> tr = ctor ? StateTrajectory<2>(da, dt, t0, ZOH) : StateTrajectory<2>(ta, da, ZOH);
    same(tr, t, d, "construct");
    int ops = THOROUGH ? 4 : 3;
    for (int k = 0; k < ops; k++)
    {
        int op = symChoice("op" + S(k), 9);
        double a = symReal("p" + S(k));
        X x;
        x << symReal("v" + S(k)), symReal("w" + S(k));
        if (op == 0)
        {
            tr.shiftTime(a);
            for (auto& y : t) y = y - a;
        }
        else if (op == 1)
        {
            tr.push_back(x, a, true);
            t.push_back(a);
            d.push_back(x);
        }
        else if (op == 2)
        {
            if (t.empty()) return;
            tr.push_back(x, a, false);
            t.push_back(t.back() + a);
            d.push_back(x);
        }
        else if (op == 3)
        {
            if (t.empty()) return;
            tr.pop_back();
            t.pop_back();
            d.pop_back();
        }
        else if (op == 4)
        {
            size_t m = symChoice("m" + S(k), 3);
            if (m > t.size()) return;
            tr.eraseFront(m, a);
            t.erase(t.begin(), t.begin() + m);
            d.erase(d.begin(), d.begin() + m);
            for (auto& y : t) y = y - a;
        }
        else if (op == 5)
        {
            StateTrajectory<2> o;
            o.push_back(x, a, true);
            tr.swapData(o);
            same(o, t, d, "swap-other");
            t.assign(1, a);
            d.assign(1, x);
        }
        else if (op == 6)
        {
            // sub-trajectory, both indices included
            if (t.size() < 2) return;
            DiscreteTrajectoryBase<X, Eigen::aligned_allocator<X>> sub(tr, 1, t.size() - 1);
            assertTrue(sub.size() == t.size() - 1, "sub-length");
            if (sub.size() == t.size() - 1)
                for (size_t i = 0; i < sub.size(); i++)
                {
                    assertEq(sub.getTimeFromIndex(i), t[i + 1], "sub-time");
                    assertEqM(sub[i], d[i + 1], "sub-data");
                }
        }
        else if (op == 7)
        {
            StateTrajectory<2> c(tr), as;
            as = tr;
            tr.shiftTime(a);
            if (!t.empty()) tr.front() = x;
            same(c, t, d, "copy");
            same(as, t, d, "assigned");
            for (auto& y : t) y = y - a;
            if (!t.empty()) d.front() = x;
        }
        else
        {
            tr.clear();
            t.clear();
            d.clear();
        }
        same(tr, t, d, "edit");
    }
}
