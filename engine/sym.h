// Harness API.  The same harness is compiled twice: by clang with the symbolic pass (rt.cpp decides every assertion with
// an SMT solver over all values of the declared variables), and by g++ without it (replay.cpp runs one concrete input
// natively, used to confirm every counterexample against the real code).
#pragma once
#include <cstddef>
#include <string>
#include <vector>
extern "C" {
// a symbolic real; [lo,hi] is only the range used for sampling concrete witnesses, not an assumption
double sym_real(const char* name, double lo, double hi);
// a nondeterministic integer 0..n-1 (both the symbolic run and the replay follow all / the recorded value)
int sym_choice(const char* name, int n);
// an arbitrary (uninterpreted) smooth function and its partial derivatives
double sym_uf(const char* fname, const double* args, int n);
double sym_duf(const char* fname, int wrt, const double* args, int n);
// assumptions: a<b, a<=b, a==b, a!=b
void sym_assume_lt(double a, double b);
void sym_assume_le(double a, double b);
void sym_assume_eq(double a, double b);
void sym_assume_ne(double a, double b);
void sym_assume_bool(bool c);
// assertions
void sym_assert_eq_(double a, double b, const char* label, double tol);
void sym_assert_le_(double a, double b, const char* label, double tol);
void sym_assert_lt_(double a, double b, const char* label, double tol);
void sym_assert_bool_(bool c, const char* label);
// d a / d var == d   (var: name given to sym_real)
void sym_assert_deriv_(double a, const char* var, double d, const char* label, double tol);
bool sym_is_replay();
void sym_note(const char* msg);
// drive branches in the harness without forking on solver queries
}
void sym_main();

inline double symReal(const std::string& n, double lo = -2, double hi = 2) { return sym_real(n.c_str(), lo, hi); }
inline double symIn(const std::string& n, double lo, double hi)
{
    double x = sym_real(n.c_str(), lo, hi);
    sym_assume_le(lo, x);
    sym_assume_le(x, hi);
    return x;
}
inline double symPos(const std::string& n, double lo = 0.01, double hi = 2)
{
    double x = sym_real(n.c_str(), lo, hi);
    sym_assume_lt(0.0, x);
    return x;
}
inline int symChoice(const std::string& n, int k) { return sym_choice(n.c_str(), k); }
inline void assertEq(double a, double b, const std::string& l, double tol = 1e-6) { sym_assert_eq_(a, b, l.c_str(), tol); }
inline void assertLe(double a, double b, const std::string& l, double tol = 1e-6) { sym_assert_le_(a, b, l.c_str(), tol); }
inline void assertLt(double a, double b, const std::string& l, double tol = 1e-6) { sym_assert_lt_(a, b, l.c_str(), tol); }
inline void assertTrue(bool c, const std::string& l) { sym_assert_bool_(c, l.c_str()); }
inline void assertDeriv(double a, const std::string& var, double d, const std::string& l, double tol = 1e-4)
{
    sym_assert_deriv_(a, var.c_str(), d, l.c_str(), tol);
}
inline double symUF(const std::string& f, const std::vector<double>& a) { return sym_uf(f.c_str(), a.data(), (int)a.size()); }
inline double symDUF(const std::string& f, int i, const std::vector<double>& a)
{
    return sym_duf(f.c_str(), i, a.data(), (int)a.size());
}
inline std::string S(long i) { return std::to_string(i); }
#ifdef EIGEN_CORE_H
#define SYM_EIGEN
#endif
#ifdef SYM_EIGEN
template <int R, int C = 1>
Eigen::Matrix<double, R, C> symMat(const std::string& n, double lo = -2, double hi = 2)
{
    Eigen::Matrix<double, R, C> m;
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++)
            m(i, j) = symReal(C == 1 ? n + S(i) : n + S(i) + "_" + S(j), lo, hi);
    return m;
}
template <int R>
Eigen::Matrix<double, R, R> symSym(const std::string& n, double lo = -2, double hi = 2)
{
    Eigen::Matrix<double, R, R> m;
    for (int i = 0; i < R; i++)
        for (int j = i; j < R; j++)
            m(i, j) = m(j, i) = symReal(n + S(i) + "_" + S(j), lo, hi);
    return m;
}
template <typename A, typename B>
void assertEqM(const A& a, const B& b, const std::string& l, double tol = 1e-6)
{
    assertTrue(a.rows() == b.rows() && a.cols() == b.cols(), l + ".dim");
    if (a.rows() != b.rows() || a.cols() != b.cols())
        return;
    for (int i = 0; i < (int)a.rows(); i++)
        for (int j = 0; j < (int)a.cols(); j++)
            assertEq(a(i, j), b(i, j), l + "[" + S(i) + "," + S(j) + "]", tol);
}
#endif
