// BOUNDS: higher-order schemes: polynomial right-hand sides in t with symbolic coefficients, degree up to the scheme's order, 1-2 steps
#include "common.h"
struct Poly : public System<1>
{
    std::vector<double> c;
    Poly* clone() const override { return new Poly(*this); }
    void computeDynamics(const StateVector<1>& x, const double& t, StateVector<1>& d) override
    {
        double p = 1, s = 0;
        for (double a : c)
        {
            s = s + a * p;
            p = p * t;
        }
        d(0) = s;
    }
};
void sym_main()
{
    int type = symChoice("type", 6);
    IntegrationType types[6] = {MODIFIED_MIDPOINT, RK78, EULER, EULERCT, RK4, RK4CT};
    int degs[6] = {1, 5, 0, 0, 3, 3};
    int n = 1 + symChoice("n", 2);
    auto p = std::make_shared<Poly>();
    for (int i = 0; i <= degs[type]; i++) p->c.push_back(symReal("c" + S(i)));
    Integrator<1> I(p, types[type]);
    StateVector<1> x;
    double x0 = symReal("x0"), t0 = symReal("t0", 0, 1), h = symPos("h");
    x(0) = x0;
    I.integrate_n_steps(x, t0, n, h);
    double T = t0 + n * h, ref = x0, a = T, b = t0;
    for (int i = 0; i <= degs[type]; i++)
    {
        ref = ref + p->c[i] * (a - b) / (i + 1);
        a = a * T;
        b = b * t0;
    }
    assertEq(x(0), ref, "exact-on-polynomials");
}
