// BOUNDS: array arithmetic and grids: 1..4 elements, symbolic 2-vectors and scalars
#include "common.h"
typedef StateVector<2> X;
void sym_main()
{
    int n = 1 + symChoice("n", 4), m = 1 + symChoice("m", 4);
    StateVectorArray<2> a(n), b(m);
    for (int i = 0; i < n; i++) a[i] << symReal("a" + S(i)), symReal("c" + S(i));
    for (int i = 0; i < m; i++) b[i] << symReal("b" + S(i)), symReal("d" + S(i));
    double s = symReal("s");
    int op = symChoice("op", 6);
    StateVectorArray<2> a0(a);
    if (op < 4)
    {
        StateVectorArray<2> r;
        bool th = throws([&]() {
            if (op == 0)
                r = StateVectorArray<2>(a + b);
            else if (op == 1)
                r = StateVectorArray<2>(a - b);
            else if (op == 2)
            {
                a += b;
                r = a;
            }
            else
            {
                a -= b;
                r = a;
            }
        });
        assertTrue(th == (n != m), "size-mismatch-refused");
        if (!th && n == m)
        {
            assertTrue((int)r.size() == n, "length");
            for (int i = 0; i < n; i++) assertEqM(r[i], (op & 1) ? X(a0[i] - b[i]) : X(a0[i] + b[i]), "elementwise");
        }
    }
    else if (op == 4)
    {
        StateVectorArray<2> p(a * s), q(a);
        p = StateVectorArray<2>(a * s);
        sym_assume_ne(s, 0);
        StateVectorArray<2> dv(a / s);
        for (int i = 0; i < n; i++)
        {
            assertEqM(p[i], X(s * a0[i]), "scale");
            assertEqM(dv[i], X(a0[i] / s), "divide");
        }
        X off;
        off << symReal("o0"), symReal("o1");
        q.addOffset(off);
        for (int i = 0; i < n; i++) assertEqM(q[i], X(a0[i] + off), "offset");
        q.setConstant(off);
        for (int i = 0; i < n; i++) assertEqM(q[i], off, "constant");
        StateVectorArray<2> e(a);
        size_t k = symChoice("k", n + 1);
        e.eraseFront(k);
        assertTrue(e.size() == n - k, "erase-length");
        for (size_t i = 0; i < e.size() && i + k < (size_t)n; i++) assertEqM(e[i], a0[i + k], "erase");
        // the operands are untouched
        for (int i = 0; i < n; i++) assertEqM(a[i], a0[i], "operand-unchanged");
    }
    else
    {
        double lo = symReal("lo"), hi = symReal("hi"), dt = symReal("dt");
        if (n > 1)
        {
            auto l = linspace<ScalarArray<double>>(lo, hi, n);
            assertTrue((int)l.size() == n, "linspace-length");
            for (int i = 0; i < n; i++) assertEq(l[i], lo + (hi - lo) * i / (n - 1), "linspace");
        }
        TimeArray ta(dt, n, lo);
        assertTrue((int)ta.size() == n, "grid-length");
        for (int i = 0; i < n && n > 1; i++) assertEq(ta[i], lo + i * dt, "grid");
        assertEq(ta[0], lo, "grid-start");
    }
}
