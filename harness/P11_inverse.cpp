// BOUNDS: linear solves: LU up to 3x3 with 1-2 right-hand sides, LDLT up to 3x3, all entries symbolic where the pivots (leading minors) are non-zero
// SYM: budget=200 qt=60
#include "common.h"
typedef Eigen::MatrixXd M;
void sym_main()
{
    int n = 1 + symChoice("n", 3), m = 1 + symChoice("m", 2);
    bool ld = symChoice("ldlt", 2);
    M A(n, n), B(n, m);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            A(i, j) = (ld && j < i) ? A(j, i) : symReal("a" + S(i) + S(j));
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) B(i, j) = symReal("b" + S(i) + S(j));
    sym_assume_ne(A(0, 0), 0);
    if (n > 1) sym_assume_ne(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0), 0);
    if (n > 2)
        sym_assume_ne(A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) +
                          A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0)),
            0);
    M A0 = A, B0 = B;
    M X = ld ? LDLTsolve<double>(A, B) : LUsolve<double>(A, B);
    assertEqM(M(A * X), B, ld ? "ldlt-solves" : "lu-solves");
    assertEqM(A, A0, "operand-kept");
    assertEqM(B, B0, "operand-kept");
}
