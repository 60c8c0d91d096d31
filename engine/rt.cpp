// Symbolic runtime: NaN-boxed symbolic reals, hash-consed expression DAG, path conditions, fork()-based path
// exploration with solver-checked feasibility, SMT-LIB encoding (denominators cleared) and assertion discharge.
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <spawn.h>
#include <sstream>
#include <string>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <algorithm>
#include "family.h"
#include "sym.h"
using boost::multiprecision::cpp_int;
typedef uint32_t Id;
typedef uint64_t u64;
typedef unsigned __int128 u128;
static const u64 P = (1ull << 61) - 1;
static u64 addm(u64 a, u64 b) { u64 r = a + b; return r >= P ? r - P : r; }
static u64 mulm(u64 a, u64 b) { return (u64)((u128)a * b % P); }
static u64 powm(u64 a, u64 e) { u64 r = 1; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static u64 invm(u64 a) { return powm(a, P - 2); }

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, NEG, DIV, FUN };
struct Node
{
    Op op;
    Id a, b;   // CONST: a=const index; VAR: a=var index; FUN: a=fun name id, b=args index
    u64 fp;
};
struct CV { cpp_int n, d; double v; };
struct VarInfo { std::string name; double lo, hi; };
static std::vector<Node> N;
static std::vector<CV> consts;
static std::vector<VarInfo> vars;
static std::vector<std::string> fnames;
static std::map<std::string, Id> fnameIdx;
static std::vector<std::vector<Id>> argLists;
static std::unordered_map<u64, Id> constByBits;
struct KeyH { size_t operator()(const std::pair<u64, u64>& k) const { return fam_mix(k.first * 31 + k.second); } };
static std::unordered_map<std::pair<u64, u64>, Id, KeyH> consMap;
static std::map<std::pair<Id, std::vector<Id>>, Id> funMap;
static std::map<std::pair<Id, std::vector<u64>>, std::vector<Id>> funFp;
static std::map<std::string, Id> varByName;

// ---- boxing
static const u64 TAG = 0x7FFDull << 48;
static inline u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static inline double fromBits(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool isBox(double d) { return (bits(d) >> 48) == 0x7FFD; }
static inline double box(Id i);
static inline Id idOf(double d);

// ---- shared state
struct Shared
{
    std::atomic<int> running, stop;
    std::atomic<long> paths, queries, forks, msSolver, asserts, unsup, budget, unsatQ, satQ, unkQ, live;
    std::atomic<long> cexs;
};
static Shared* sh;
static int maxPar = 8;
static long maxPaths = 20000;
static double deadline = 0;
static int outFd = -1;
static u64 seed = 1;
static double qTimeout = 20;
static std::string solver = "/usr/local/bin/z3-new";
static std::string solver2 = "/usr/bin/z3";
static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static bool debug = false;
static bool absTerms = false;  // |x| as a term with axioms instead of a case split

// ---- constants: simplest rational inside the rounding interval of the double
static void simplest(double v, cpp_int& n, cpp_int& d)
{
    if (v == 0) { n = 0; d = 1; return; }
    bool neg = v < 0;
    double x = fabs(v);
    if (x == floor(x) && x < 1e15) { n = (long long)x; d = 1; if (neg) n = -n; return; }
    // exact x = m*2^e ; interval half ulp
    int e;
    double m = frexp(x, &e);
    cpp_int M = (long long)ldexp(m, 53);
    e -= 53;
    cpp_int den = 1, lo = M - 1, hi = M + 1;  // one ulp on each side: absorbs the rounding of a folded constant
    if (e >= 0) { lo <<= e; hi <<= e; }
    else den <<= -e;
    // Stern-Brocot via continued fractions on [lo/den, hi/den]
    cpp_int a = lo, b = den, c = hi, dd = den;
    // recursive simplest between
    std::vector<cpp_int> q;
    cpp_int rn, rd;
    while (true)
    {
        cpp_int f = a / b;
        if (f * b == a) { rn = f; rd = 1; break; }
        if (f < c / dd || (f + 1) * dd <= c) { rn = f + 1; rd = 1; break; }
        q.push_back(f);
        cpp_int ra = a - f * b, rc = c - f * dd;
        // now invert: interval [dd/rc , b/ra]
        cpp_int na = dd, nb = rc, nc = b, nd = ra;
        a = na; b = nb; c = nc; dd = nd;
    }
    for (int i = (int)q.size() - 1; i >= 0; i--)
    {
        cpp_int t = q[i] * rn + rd;
        rd = rn;
        rn = t;
    }
    n = neg ? -rn : rn;
    d = rd;
}
static u64 modp(const cpp_int& x)
{
    cpp_int r = x % cpp_int(P);
    if (r < 0) r += cpp_int(P);
    return r.convert_to<u64>();
}
static Id push(Op op, Id a, Id b, u64 fp)
{
    N.push_back({op, a, b, fp});
    if (N.size() > 0x7fffff00u) abort();
    return (Id)N.size() - 1;
}
static Id mkRat(const cpp_int& n0, const cpp_int& d0, double v)
{
    static std::map<std::pair<cpp_int, cpp_int>, Id> m;
    cpp_int g = boost::multiprecision::gcd(n0 < 0 ? cpp_int(-n0) : n0, d0), n = n0 / (g == 0 ? cpp_int(1) : g), d = d0 / (g == 0 ? cpp_int(1) : g);
    auto it = m.find({n, d});
    if (it != m.end()) return it->second;
    consts.push_back({n, d, v});
    u64 fp = mulm(modp(n), invm(modp(d)));
    return m[{n, d}] = push(CONST, (Id)consts.size() - 1, 0, fp);
}
static Id mkConst(double v)
{
    if (v == 0) v = 0;
    auto it = constByBits.find(bits(v));
    if (it != constByBits.end()) return it->second;
    cpp_int n, d;
    simplest(v, n, d);
    Id i = mkRat(n, d, v);
    constByBits[bits(v)] = i;
    return i;
}
static bool isC(Id i) { return N[i].op == CONST; }
static double cval(Id i) { return consts[N[i].a].v; }
static bool isZero(Id i) { return isC(i) && consts[N[i].a].n == 0; }
static bool isOne(Id i) { return isC(i) && consts[N[i].a].n == 1 && consts[N[i].a].d == 1; }
static bool isMinusOne(Id i) { return isC(i) && consts[N[i].a].n == -1 && consts[N[i].a].d == 1; }
static inline double box(Id i)
{
    if (isC(i)) return cval(i);
    return fromBits(TAG | i);
}
static inline Id idOf(double d) { return isBox(d) ? (Id)(bits(d) & 0xffffffffu) : mkConst(d); }
static Id cons(Op op, Id a, Id b, u64 fp)
{
    auto k = std::make_pair(((u64)op << 32) | a, (u64)b);
    auto it = consMap.find(k);
    if (it != consMap.end()) return it->second;
    return consMap[k] = push(op, a, b, fp);
}
static Id mkAdd(Id a, Id b);
static Id mkSub(Id a, Id b);
static Id mkMul(Id a, Id b);
static Id mkNeg(Id a);
static Id mkDiv(Id a, Id b);
static Id ratOp(Id a, Id b, char op)
{
    const CV &x = consts[N[a].a], &y = consts[N[b].a];
    cpp_int n, d;
    double v;
    if (op == '+') { n = x.n * y.d + y.n * x.d; d = x.d * y.d; v = x.v + y.v; }
    else if (op == '-') { n = x.n * y.d - y.n * x.d; d = x.d * y.d; v = x.v - y.v; }
    else if (op == '*') { n = x.n * y.n; d = x.d * y.d; v = x.v * y.v; }
    else { n = x.n * y.d; d = x.d * y.n; v = x.v / y.v; if (d < 0) { n = -n; d = -d; } }
    return mkRat(n, d, v);
}
static Id mkAdd(Id a, Id b)
{
    if (isC(a) && isC(b)) return ratOp(a, b, '+');
    if (isZero(a)) return b;
    if (isZero(b)) return a;
    if (N[a].op == NEG && N[a].a == b) return mkConst(0);
    if (N[b].op == NEG && N[b].a == a) return mkConst(0);
    if (N[a].op == NEG) return mkSub(b, N[a].a);
    if (N[b].op == NEG) return mkSub(a, N[b].a);
    if (N[a].op == SUB && N[a].b == b) return N[a].a;
    if (N[b].op == SUB && N[b].b == a) return N[b].a;
    if (a > b) std::swap(a, b);
    return cons(ADD, a, b, addm(N[a].fp, N[b].fp));
}
static Id mkSub(Id a, Id b)
{
    if (isC(a) && isC(b)) return ratOp(a, b, '-');
    if (a == b) return mkConst(0);
    if (isZero(b)) return a;
    if (isZero(a)) return mkNeg(b);
    if (N[b].op == NEG) return mkAdd(a, N[b].a);
    if (N[a].op == ADD && N[a].a == b) return N[a].b;
    if (N[a].op == ADD && N[a].b == b) return N[a].a;
    return cons(SUB, a, b, addm(N[a].fp, P - N[b].fp));
}
static Id mkNeg(Id a)
{
    if (isC(a)) return ratOp(mkConst(0), a, '-');
    if (N[a].op == NEG) return N[a].a;
    if (N[a].op == SUB) return mkSub(N[a].b, N[a].a);
    return cons(NEG, a, 0, N[a].fp ? P - N[a].fp : 0);
}
static Id mkMul(Id a, Id b)
{
    if (isC(a) && isC(b)) return ratOp(a, b, '*');
    if (isZero(a) || isZero(b)) return mkConst(0);
    if (isOne(a)) return b;
    if (isOne(b)) return a;
    if (isMinusOne(a)) return mkNeg(b);
    if (isMinusOne(b)) return mkNeg(a);
    if (N[a].op == NEG && N[b].op == NEG) return mkMul(N[a].a, N[b].a);
    if (N[a].op == NEG) return mkNeg(mkMul(N[a].a, b));
    if (N[b].op == NEG) return mkNeg(mkMul(a, N[b].a));
    if (a == b && N[a].op == FUN && fnames[N[a].a] == "sqrt") return argLists[N[a].b][0];
    if (isC(b)) std::swap(a, b);
    if (isC(a) && N[b].op == MUL && isC(N[b].a)) return mkMul(ratOp(a, N[b].a, '*'), N[b].b);
    if (!isC(a) && a > b) std::swap(a, b);
    return cons(MUL, a, b, mulm(N[a].fp, N[b].fp));
}
static Id mkDiv(Id a, Id b)
{
    if (isC(b) && !isZero(b))
    {
        if (isC(a)) return ratOp(a, b, '/');
        return mkMul(ratOp(mkConst(1), b, '/'), a);
    }
    if (isZero(a)) return a;
    if (a == b) return mkConst(1);
    if (N[b].op == FUN && N[a].op == DIV && N[a].b == b && fnames[N[b].a] == "sqrt") return mkDiv(N[a].a, argLists[N[b].b][0]);
    return cons(DIV, a, b, mulm(N[a].fp, invm(N[b].fp)));
}
static Id fnameId(const std::string& s)
{
    auto it = fnameIdx.find(s);
    if (it != fnameIdx.end()) return it->second;
    fnames.push_back(s);
    return fnameIdx[s] = (Id)fnames.size() - 1;
}
static bool proveEqual(Id a, Id b);
static bool trig(Id x, Id& c, Id& s)
{
    Op op = N[x].op;
    Id a = N[x].a, b = N[x].b;
    auto turn = [](Id c1, Id s1, Id c2, Id s2, Id& co, Id& so) {
        Id cc = mkSub(mkMul(c1, c2), mkMul(s1, s2));
        so = mkAdd(mkMul(s1, c2), mkMul(c1, s2));
        co = cc;
    };
    if (op == ADD || op == SUB)
    {
        Id c1, s1, c2, s2;
        if (!trig(a, c1, s1) || !trig(b, c2, s2)) return false;
        turn(c1, s1, c2, op == ADD ? s2 : mkNeg(s2), c, s);
        return true;
    }
    if (op == NEG)
    {
        if (!trig(a, c, s)) return false;
        s = mkNeg(s);
        return true;
    }
    if (op != MUL || !isC(a)) return false;
    const CV cv = consts[N[a].a];
    if (cv.d != 1 || cv.n > 24 || cv.n < -24) return false;
    int k = (int)cv.n;
    Id c1, s1;
    if (N[b].op == FUN && fnames[N[b].a] == "atan" && k % 2 == 0)
    {
        Id t = argLists[N[b].b][0], q = mkMul(t, t), d = mkAdd(mkConst(1), q);
        s1 = mkDiv(mkMul(mkConst(2), t), d);
        c1 = mkDiv(mkSub(mkConst(1), q), d);
        k /= 2;
    }
    else if (!trig(b, c1, s1)) return false;
    bool neg = k < 0;
    k = k < 0 ? -k : k;
    if (k == 0) { c = mkConst(1); s = mkConst(0); return true; }
    c = c1;
    s = s1;
    for (int i = 1; i < k; i++) turn(c, s, c1, s1, c, s);
    if (neg) s = mkNeg(s);
    return true;
}
static Id mkFun(const std::string& f, const std::vector<Id>& args)
{
    // angles written as 2*atan(t), their integer multiples and sums: sin and cos are rational in t (exact identities)
    if (f == "sin" || f == "cos")
    {
        Id c, sn;
        if (trig(args[0], c, sn)) return f == "sin" ? sn : c;
    }
    Id fi = fnameId(f);
    auto it = funMap.find({fi, args});
    if (it != funMap.end()) return it->second;
    std::vector<u64> fps;
    for (Id a : args) fps.push_back(N[a].fp);
    auto& cand = funFp[{fi, fps}];
    for (Id c : cand)
    {
        auto al = argLists[N[c].b];
        bool ok = true;
        for (size_t i = 0; ok && i < args.size(); i++) ok = proveEqual(al[i], args[i]);
        if (ok) { funMap[{fi, args}] = c; return c; }
    }
    u64 h = fam_hash(f, 77);
    for (u64 x : fps) h = fam_mix(h ^ x);
    argLists.push_back(args);
    Id n = push(FUN, fi, (Id)argLists.size() - 1, h % P);
    funFp[{fi, fps}].push_back(n);
    return funMap[{fi, args}] = n;
}

// ---- fractions: node -> numerator node and denominator factor multiset
struct Frac { Id num; std::vector<std::pair<Id, int>> den; };
static std::unordered_map<Id, Frac> fracMemo;
typedef std::vector<std::pair<Id, int>> Den;
static Id mulFactors(Id x, const Den& f)
{
    for (auto& p : f)
        for (int i = 0; i < p.second; i++) x = mkMul(x, p.first);
    return x;
}
static Den denAdd(const Den& a, const Den& b)
{
    std::map<Id, int> m;
    for (auto& p : a) m[p.first] += p.second;
    for (auto& p : b) m[p.first] += p.second;
    return Den(m.begin(), m.end());
}
static Den denMax(const Den& a, const Den& b)
{
    std::map<Id, int> m;
    for (auto& p : a) m[p.first] = std::max(m[p.first], p.second);
    for (auto& p : b) m[p.first] = std::max(m[p.first], p.second);
    return Den(m.begin(), m.end());
}
static Den denMinus(const Den& a, const Den& b)
{
    std::map<Id, int> m;
    for (auto& p : a) m[p.first] += p.second;
    for (auto& p : b) m[p.first] -= p.second;
    Den r;
    for (auto& p : m) if (p.second > 0) r.push_back(p);
    return r;
}
static void factorize(Id x, Den& out, Id& coef)
{
    std::vector<Id> st{x};
    std::map<Id, int> m;
    while (!st.empty())
    {
        Id y = st.back(); st.pop_back();
        if (N[y].op == MUL) { st.push_back(N[y].a); st.push_back(N[y].b); }
        else if (N[y].op == NEG) { coef = mkNeg(coef); st.push_back(N[y].a); }
        else if (isC(y)) coef = mkMul(coef, y);
        else m[y]++;
    }
    out = Den(m.begin(), m.end());
}
static void cone(const std::vector<Id>& roots, std::vector<Id>& out)
{
    std::unordered_set<Id> seen;
    std::vector<Id> st(roots);
    while (!st.empty())
    {
        Id x = st.back(); st.pop_back();
        if (!seen.insert(x).second) continue;
        out.push_back(x);
        const Node& n = N[x];
        if (n.op >= ADD && n.op <= DIV) { st.push_back(n.a); if (n.op != NEG) st.push_back(n.b); }
    }
    std::sort(out.begin(), out.end());
}
static const Frac& frac(Id x);
// sqrt(a)*sqrt(a) = a in a product nn/dd (the square root is only formed where a >= 0)
static void reduceSqrt(Den& nn, Den& dd, Id& coef)
{
    bool again = true;
    while (again)
    {
        again = false;
        for (int side = 0; side < 2 && !again; side++)
        {
            Den& d = side ? dd : nn;
            Den& o = side ? nn : dd;
            for (size_t i = 0; i < d.size(); i++)
            {
                Id f = d[i].first;
                int c = d[i].second;
                if (c < 2 || N[f].op != FUN || fnames[N[f].a] != "sqrt") continue;
                Frac a = frac(argLists[N[f].b][0]);
                Den nf;
                Id k = mkConst(1);
                factorize(a.num, nf, k);
                if (isZero(k)) continue;
                d.erase(d.begin() + i);
                if (c & 1) d = denAdd(d, Den{{f, 1}});
                for (int j = 0; j < c / 2; j++)
                {
                    d = denAdd(d, nf);
                    o = denAdd(o, a.den);
                    coef = side ? mkDiv(coef, k) : mkMul(coef, k);
                }
                again = true;
                break;
            }
        }
    }
}
static const Frac& frac(Id x)
{
    auto it = fracMemo.find(x);
    if (it != fracMemo.end()) return it->second;
    std::vector<Id> c;
    // restricted cone: stop at memoised
    {
        std::unordered_set<Id> seen;
        std::vector<Id> st{x};
        while (!st.empty())
        {
            Id y = st.back(); st.pop_back();
            if (fracMemo.count(y) || !seen.insert(y).second) continue;
            c.push_back(y);
            Op op = N[y].op; Id ya = N[y].a, yb = N[y].b;
            if (op >= ADD && op <= DIV) { st.push_back(ya); if (op != NEG) st.push_back(yb); }
        }
        std::sort(c.begin(), c.end());
    }
    for (Id y : c)
    {
        Op op = N[y].op; Id ya = N[y].a, yb = N[y].b;
        Frac r;
        switch (op)
        {
            case CONST: case VAR: case FUN: r.num = y; break;
            case NEG: { const Frac& f = fracMemo[ya]; r.num = mkNeg(f.num); r.den = f.den; break; }
            case ADD: case SUB:
            {
                Frac f = fracMemo[ya], g = fracMemo[yb];
                Den l = denMax(f.den, g.den);
                Id a = mulFactors(f.num, denMinus(l, f.den)), b = mulFactors(g.num, denMinus(l, g.den));
                r.num = op == ADD ? mkAdd(a, b) : mkSub(a, b);
                r.den = l;
                break;
            }
            case MUL:
            {
                Frac f = fracMemo[ya], g = fracMemo[yb];
                if (f.den.empty() && g.den.empty() && !(ya == yb && N[ya].op == FUN)) { r.num = mkMul(f.num, g.num); break; }
                // cancel syntactically equal factors
                Den nf, ng; Id coef = mkConst(1);
                factorize(f.num, nf, coef);
                factorize(g.num, ng, coef);
                Den nn = denAdd(nf, ng), dd = denAdd(f.den, g.den);
                reduceSqrt(nn, dd, coef);
                r.num = mulFactors(coef, denMinus(nn, dd));
                r.den = denMinus(dd, nn);
                break;
            }
            case DIV:
            {
                Frac f = fracMemo[ya], g = fracMemo[yb];
                Den nf, ng; Id cf = mkConst(1), cg = mkConst(1);
                factorize(f.num, nf, cf);
                factorize(g.num, ng, cg);
                Den nn = denAdd(nf, g.den), dd = denAdd(f.den, ng);
                Id c0 = isZero(cg) ? cf : mkDiv(cf, cg);
                reduceSqrt(nn, dd, c0);
                r.num = mulFactors(c0, denMinus(nn, dd));
                r.den = denMinus(dd, nn);
                break;
            }
        }
        fracMemo[y] = r;
    }
    return fracMemo[x];
}

// ---- conditions
enum Rel : uint8_t { LT, LE, EQ, NE };
struct Cond { Rel r; Id a, b; };
static std::vector<Cond> pc;
static std::map<std::tuple<int, Id, Id>, bool> decided;
static std::vector<std::pair<std::string, int>> choices;
static std::set<Id> divs;  // denominators assumed non-zero

// ---- model (concrete witness)
static std::unordered_map<Id, double> modelVal;  // VAR/FUN overrides
static std::vector<double> mv;
static std::vector<char> mvOk;
static u64 famSeed = 0;
static double varDefault(Id x)
{
    const VarInfo& v = vars[N[x].a];
    u64 s = fam_hash(v.name, famSeed + 1000);
    double u = 0.5 * (fam_u(s) + 1);
    return v.lo + u * (v.hi - v.lo);
}
static double applyFun(const std::string& f, const std::vector<double>& a)
{
    if (f == "sqrt") return std::sqrt(a[0]);
    if (f == "abs") return std::fabs(a[0]);
    if (f == "sin") return std::sin(a[0]);
    if (f == "cos") return std::cos(a[0]);
    if (f == "tan") return std::tan(a[0]);
    if (f == "asin") return std::asin(a[0]);
    if (f == "acos") return std::acos(a[0]);
    if (f == "atan") return std::atan(a[0]);
    if (f == "sinh") return std::sinh(a[0]);
    if (f == "cosh") return std::cosh(a[0]);
    if (f == "tanh") return std::tanh(a[0]);
    if (f == "exp") return std::exp(a[0]);
    if (f == "log") return std::log(a[0]);
    if (f == "cbrt") return std::cbrt(a[0]);
    if (f == "erf") return std::erf(a[0]);
    if (f == "atan2") return std::atan2(a[0], a[1]);
    if (f == "pow") return std::pow(a[0], a[1]);
    return fam_eval(f, a.data(), (int)a.size(), famSeed);
}
static void evalNode(Id x)
{
    const Node& n = N[x];
    double r;
    switch (n.op)
    {
        case CONST: r = consts[n.a].v; break;
        case VAR: { auto it = modelVal.find(x); r = it != modelVal.end() ? it->second : varDefault(x); break; }
        case ADD: r = mv[n.a] + mv[n.b]; break;
        case SUB: r = mv[n.a] - mv[n.b]; break;
        case MUL: r = mv[n.a] * mv[n.b]; break;
        case NEG: r = -mv[n.a]; break;
        case DIV: r = mv[n.a] / mv[n.b]; break;
        default:
        {
            auto it = modelVal.find(x);
            if (it != modelVal.end()) r = it->second;
            else
            {
                std::vector<double> a;
                for (Id i : argLists[n.b]) a.push_back(mv[i]);
                r = applyFun(fnames[n.a], a);
            }
        }
    }
    mv[x] = r;
    mvOk[x] = 1;
}
static double mval(Id x)
{
    if (mv.size() < N.size()) { mv.resize(N.size()); mvOk.resize(N.size(), 0); }
    if (mvOk[x]) return mv[x];
    std::vector<Id> st{x};
    while (!st.empty())
    {
        Id y = st.back();
        if (mvOk[y]) { st.pop_back(); continue; }
        const Node& n = N[y];
        bool ready = true;
        auto need = [&](Id z) { if (!mvOk[z]) { st.push_back(z); ready = false; } };
        if (n.op >= ADD && n.op <= DIV) { need(n.a); if (n.op != NEG) need(n.b); }
        else if (n.op == FUN && !modelVal.count(y)) for (Id z : argLists[n.b]) need(z);
        if (ready) { evalNode(y); st.pop_back(); }
    }
    return mv[x];
}
static void clearModelCache() { std::fill(mvOk.begin(), mvOk.end(), 0); }
// -1: false, 1: true, 0: too close to tell
static int evalCond(const Cond& c)
{
    double a = mval(c.a), b = mval(c.b);
    double m = 1e-9 * (1 + fabs(a) + fabs(b));
    if (!(a == a) || !(b == b)) return 0;
    if (fabs(a - b) <= m) return 0;
    switch (c.r)
    {
        case LT: case LE: return a < b ? 1 : -1;
        case EQ: return -1;
        default: return 1;
    }
}

// ---- SMT emission
static void rat2smt(std::ostream& o, const CV& c)
{
    bool neg = c.n < 0;
    cpp_int n = neg ? cpp_int(-c.n) : c.n;
    if (neg) o << "(- ";
    if (c.d == 1) o << n << ".0";
    else o << "(/ " << n << ".0 " << c.d << ".0)";
    if (neg) o << ")";
}
struct Query
{
    bool axioms = true;
    std::vector<Cond> base;                // conjunction
    std::vector<Cond> anyOf;               // disjunction (if non-empty)
    bool congruence = false;
    double box = 0;
};
struct Answer { int r; /*1 sat 0 unsat -1 unknown*/ std::vector<std::pair<Id, double>> model; double t; };
extern char** environ;
static std::string runSolver(const std::string& bin, const std::string& text, double timeout)
{
    int in = memfd_create("q", MFD_CLOEXEC);
    size_t off = 0;
    while (off < text.size())
    {
        ssize_t k = write(in, text.data() + off, text.size() - off);
        if (k <= 0) break;
        off += k;
    }
    lseek(in, 0, SEEK_SET);
    int pfd[2];
    if (pipe2(pfd, O_CLOEXEC)) return "";
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, in, 0);
    posix_spawn_file_actions_adddup2(&fa, pfd[1], 1);
    posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
    char tbuf[32];
    snprintf(tbuf, 32, "-T:%d", (int)ceil(timeout));
    char mbuf[] = "-memory:3000";
    char* argv[] = {(char*)bin.c_str(), (char*)"-in", tbuf, mbuf, nullptr};
    pid_t pid;
    std::string out;
    if (posix_spawn(&pid, bin.c_str(), &fa, nullptr, argv, environ)) { close(in); close(pfd[0]); close(pfd[1]); posix_spawn_file_actions_destroy(&fa); return "spawn-failed"; }
    posix_spawn_file_actions_destroy(&fa);
    close(pfd[1]);
    close(in);
    char buf[65536];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, k);
    close(pfd[0]);
    int st;
    waitpid(pid, &st, 0);
    return out;
}
static void condTerm(const Cond& c, Rel& r, Id& poly)
{
    Id d = mkSub(c.a, c.b);
    Frac f = frac(d);
    Id p = f.num;
    if (c.r == LT || c.r == LE)
        for (auto& q : f.den) if (q.second & 1) p = mkMul(p, q.first);
    r = c.r;
    poly = p;
}
static double parseNum(const char*& s)
{
    while (*s == ' ' || *s == '\n') s++;
    if (*s == '(')
    {
        s++;
        while (*s == ' ') s++;
        if (*s == '-') { s++; double v = -parseNum(s); while (*s && *s != ')') s++; if (*s) s++; return v; }
        if (*s == '/') { s++; double a = parseNum(s), b = parseNum(s); while (*s && *s != ')') s++; if (*s) s++; return a / b; }
        // unknown term: skip
        int depth = 1;
        while (*s && depth) { if (*s == '(') depth++; if (*s == ')') depth--; s++; }
        return 0.12345;
    }
    char* e;
    double v = strtod(s, &e);
    if (e == s) { while (*s && *s != ' ' && *s != ')') s++; return 0.12345; }
    s = e;
    if (*s == '?') s++;
    return v;
}
static std::string emit(const Query& q, std::vector<Id>& atoms)
{
    std::vector<Id> roots;
    struct T { Rel r; Id p; };
    std::vector<T> base, any;
    std::set<Id> dens;
    auto addC = [&](const Cond& c, std::vector<T>& v) {
        T t;
        condTerm(c, t.r, t.p);
        for (auto& f : frac(mkSub(c.a, c.b)).den) dens.insert(f.first);
        v.push_back(t);
        roots.push_back(t.p);
    };
    for (auto& c : q.base) addC(c, base);
    for (auto& c : q.anyOf) addC(c, any);
    // close over function axioms
    std::set<Id> funs, varsUsed;
    std::vector<Id> all;
    std::vector<std::pair<Id, Frac>> sq;  // sqrt axioms
    std::vector<T> ax;
    std::vector<std::pair<std::vector<T>, std::pair<Id, Id>>> cong;
    bool changed = true;
    while (changed)
    {
        changed = false;
        for (Id d : dens) roots.push_back(d);
        std::sort(roots.begin(), roots.end());
        roots.erase(std::unique(roots.begin(), roots.end()), roots.end());
        all.clear();
        cone(roots, all);
        for (Id x : all)
        {
            if (N[x].op == VAR) varsUsed.insert(x);
            if (N[x].op == FUN && funs.insert(x).second)
            {
                changed = true;
                std::string f = fnames[N[x].a];
                std::vector<Id> al = argLists[N[x].b];
                if (!q.axioms) {}
                else if (f == "sqrt")
                {
                    Frac a = frac(al[0]);
                    // x>=0, x*x*den == num, den!=0
                    ax.push_back({LE, mkNeg(x)});
                    roots.push_back(mkNeg(x));
                    Id e = mkSub(mulFactors(cons(MUL, x, x, mulm(N[x].fp, N[x].fp)), a.den), a.num);
                    ax.push_back({EQ, e});
                    roots.push_back(e);
                    for (auto& d : a.den) dens.insert(d.first);
                }
                else if (f == "abs")
                {
                    // x>=0, |arg| <= x, x*x == arg*arg
                    Frac a = frac(al[0]);
                    auto add = [&](Rel r, Id e) { ax.push_back({r, e}); roots.push_back(e); };
                    add(LE, mkNeg(x));
                    if (a.den.empty())
                    {
                        add(LE, mkSub(a.num, x));
                        add(LE, mkSub(mkNeg(a.num), x));
                        add(EQ, mkMul(mkSub(x, a.num), mkAdd(x, a.num)));
                    }
                    else
                    {
                        Id xd = mulFactors(x, a.den);
                        add(EQ, mkMul(mkSub(xd, a.num), mkAdd(xd, a.num)));
                        for (auto& d : a.den) dens.insert(d.first);
                    }
                }
                else if (f == "sin" || f == "cos")
                {
                    Id o = mkFun(f == "sin" ? "cos" : "sin", al);
                    Id e = mkSub(mkAdd(mkMul(x, x), mkMul(o, o)), mkConst(1));
                    ax.push_back({EQ, e});
                    roots.push_back(e);
                }
                else if (f == "exp" || f == "cosh")
                {
                    ax.push_back({LT, mkNeg(x)});
                    roots.push_back(mkNeg(x));
                }
                if (q.congruence)
                {
                    for (Id y : funs)
                    {
                        if (y == x || N[y].a != N[x].a) continue;
                        std::vector<Id> bl = argLists[N[y].b];
                        std::vector<T> eqs;
                        for (size_t i = 0; i < al.size(); i++)
                        {
                            Id d = mkSub(al[i], bl[i]);
                            Frac fr = frac(d);
                            for (auto& dd : fr.den) dens.insert(dd.first);
                            eqs.push_back({EQ, fr.num});
                            roots.push_back(fr.num);
                        }
                        cong.push_back({eqs, {x, y}});
                    }
                }
            }
        }
    }
    std::ostringstream o;
    o << "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n";
    o << "(set-logic QF_NRA)\n";
    auto ref = [&](Id x) { if (isC(x)) rat2smt(o, consts[N[x].a]); else o << "n" << x; };
    atoms.clear();
    for (Id x : all)
    {
        const Node& n = N[x];
        switch (n.op)
        {
            case CONST: break;
            case VAR: case FUN: o << "(declare-const n" << x << " Real)\n"; atoms.push_back(x); break;
            case ADD: case SUB: case MUL:
                o << "(define-fun n" << x << " () Real (" << (n.op == ADD ? "+" : n.op == SUB ? "-" : "*") << " "; ref(n.a); o << " "; ref(n.b); o << "))\n";
                break;
            case NEG: o << "(define-fun n" << x << " () Real (- "; ref(n.a); o << "))\n"; break;
            case DIV: o << "(define-fun n" << x << " () Real (/ "; ref(n.a); o << " "; ref(n.b); o << "))\n"; break;
        }
    }
    auto term = [&](const T& t) {
        if (t.r == NE) { o << "(not (= "; ref(t.p); o << " 0.0))"; }
        else { o << "(" << (t.r == LT ? "<" : t.r == LE ? "<=" : "=") << " "; ref(t.p); o << " 0.0)"; }
    };
    for (auto& t : base) { o << "(assert "; term(t); o << ")\n"; }
    for (auto& t : ax) { o << "(assert "; term(t); o << ")\n"; }
    for (Id d : dens) { o << "(assert "; term({NE, d}); o << ")\n"; }
    for (auto& c : cong)
    {
        o << "(assert (=> (and true ";
        for (auto& t : c.first) { term(t); o << " "; }
        o << ") (= n" << c.second.first << " n" << c.second.second << ")))\n";
    }
    if (q.box > 0)
        for (Id x : atoms)
        {
            double lo = -q.box, hi = q.box;
            if (N[x].op == VAR) { lo = std::min(vars[N[x].a].lo * 4, lo); hi = std::max(vars[N[x].a].hi * 4, hi); }
            o << "(assert (<= n" << x << " " << (long)ceil(hi) << ".0))(assert (>= n" << x << " ";
            if (lo < 0) o << "(- " << (long)ceil(-lo) << ".0)"; else o << (long)floor(lo) << ".0";
            o << "))\n";
        }
    if (!any.empty())
    {
        o << "(assert (or false ";
        for (auto& t : any) { term(t); o << " "; }
        o << "))\n";
    }
    o << "(check-sat)\n";
    return o.str();
}
static Answer ask(const Query& q, double timeout, bool wantModel)
{
    Answer a{-1, {}, 0};
    std::vector<Id> atoms;
    // trivial constant conditions
    std::string text = emit(q, atoms);
    if (wantModel && !atoms.empty())
    {
        text += "(get-value (";
        for (Id x : atoms) text += "n" + std::to_string(x) + " ";
        text += "))\n";
    }
    double t0 = now();
    // the two z3 versions excel on different queries: short turns first, then the full time for each
    std::string out;
    auto answered = [&] { return !out.compare(0, 3, "sat") || !out.compare(0, 5, "unsat"); };
    for (double t : {std::min(1.5, timeout), timeout})
        for (const std::string* z : {&solver, &solver2})
            if (!answered()) out = runSolver(*z, text, t);
    a.t = now() - t0;
    sh->queries++;
    sh->msSolver += (long)(a.t * 1000);
    if (debug)
    {
        static int dn = 0;
        char f[200];
        snprintf(f, 200, "%s/q_%d_%d.smt2", getenv("SYM_DEBUG"), getpid(), dn++);
        FILE* fp = fopen(f, "w");
        if (fp) { fprintf(fp, "%s; %.2fs %s\n", text.c_str(), a.t, out.substr(0, 60).c_str()); fclose(fp); }
    }
    if (!out.compare(0, 5, "unsat")) { a.r = 0; sh->unsatQ++; }
    else if (!out.compare(0, 3, "sat"))
    {
        a.r = 1;
        sh->satQ++;
        if (wantModel)
        {
            const char* s = out.c_str() + 3;
            while ((s = strstr(s, "(n")))
            {
                s += 2;
                Id id = (Id)strtoul(s, (char**)&s, 10);
                double v = parseNum(s);
                if (id < N.size()) a.model.push_back({id, v});
            }
        }
    }
    else sh->unkQ++;
    return a;
}
static bool proveEqual(Id a, Id b)
{
    if (a == b) return true;
    Query q;
    q.base = pc;
    // path condition not needed for polynomial identity; keep query small
    q.base.clear();
    q.axioms = N[a].fp != N[b].fp;
    q.anyOf.push_back({NE, a, b});
    static std::map<std::pair<Id, Id>, bool> memo;
    auto k = std::make_pair(std::min(a, b), std::max(a, b));
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    bool r = memo[k] = ask(q, qTimeout, false).r == 0;
    return r;
}
static void adopt(const Answer& a)
{
    if (a.model.empty()) return;
    modelVal.clear();
    for (auto& p : a.model) modelVal[p.first] = p.second;
    clearModelCache();
}

// ---- records
static void emitLine(const std::string& s)
{
    if (outFd < 0) { fprintf(stderr, "%s\n", s.c_str()); return; }
    flock(outFd, LOCK_EX);
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) { ssize_t k = write(outFd, l.data() + off, l.size() - off); if (k <= 0) break; off += k; }
    flock(outFd, LOCK_UN);
}
static std::string js(const std::string& s)
{
    std::string r = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string num(double d) { char b[40]; if (!(d == d) || d - d != 0) d = 0; snprintf(b, 40, "%.17g", d); return b; }
static std::string choicesJson()
{
    std::string s = "[";
    for (size_t i = 0; i < choices.size(); i++) s += (i ? "," : "") + std::string("[") + js(choices[i].first) + "," + std::to_string(choices[i].second) + "]";
    return s + "]";
}
static std::string pcJson()
{
    return std::to_string(pc.size());
}
static std::set<std::string> cexSeen;
static void recordCex(const std::string& label, const std::string& kind, const std::string& detail)
{
    if (!cexSeen.insert(label).second) return;
    if (sh->cexs++ > 60) { sh->stop = 1; return; }
    std::string s = "{\"t\":\"cex\",\"label\":" + js(label) + ",\"kind\":" + js(kind) + ",\"detail\":" + js(detail) + ",\"choices\":" + choicesJson() + ",\"pc\":" + pcJson() + ",\"vars\":{";
    bool f = true;
    for (auto& v : varByName) { s += (f ? "" : ",") + js(v.first) + ":" + num(mval(v.second)); f = false; }
    s += "},\"uf\":[";
    f = true;
    for (auto& p : modelVal)
    {
        if (p.first >= N.size() || N[p.first].op != FUN) continue;
        std::string fn = fnames[N[p.first].a];
        s += (f ? "" : ",") + std::string("[") + js(fn) + ",[";
        bool g = true;
        for (Id x : argLists[N[p.first].b]) { s += (g ? "" : ",") + num(mval(x)); g = false; }
        s += "]," + num(p.second) + "]";
        f = false;
    }
    s += "]}";
    emitLine(s);
}
// ---- pending assertions
struct Pend { Rel r; Id a, b; std::string label; double tol; bool concreteFail; std::string detail; };
static std::vector<Pend> pend;
static std::map<std::string, long> labelCount;
static std::vector<pid_t> kids;
static bool ownSlot = false;
static bool finishing = false;

static bool pcSat()  // make sure the model satisfies pc; returns false if pc is unsat
{
    bool ok = true;
    for (auto& c : pc) if (evalCond(c) != 1) { ok = false; break; }
    if (ok) return true;
    Query q;
    q.base = pc;
    Answer a = ask(q, qTimeout, true);
    if (a.r == 1) { adopt(a); return true; }
    if (a.r == 0) return false;
    return true;
}
static std::map<std::string, long> resCount;
// |a-b| <= tol on the box |x| <= B, by a linear query: the difference is expanded into a polynomial and every monomial
// becomes an independent real within its range (an over-approximation, so only 'unsat' is used)
typedef boost::multiprecision::cpp_rational Rat;
typedef std::map<std::vector<Id>, Rat> Poly;
static bool expandPoly(Id x, std::unordered_map<Id, Poly>& memo)
{
    std::vector<Id> c;
    cone({x}, c);
    const size_t cap = 4000;
    for (Id y : c)
    {
        Op op = N[y].op; Id ya = N[y].a, yb = N[y].b;
        Poly r;
        switch (op)
        {
            case CONST: if (!isZero(y)) r[{}] = Rat(consts[ya].n, consts[ya].d); break;
            case VAR: r[{y}] = 1; break;
            case FUN: case DIV: return false;
            case NEG: for (auto& m : memo[ya]) r[m.first] = -m.second; break;
            case ADD: case SUB:
                r = memo[ya];
                for (auto& m : memo[yb])
                {
                    Rat& q = r[m.first];
                    if (op == ADD) q += m.second; else q -= m.second;
                    if (q == 0) r.erase(m.first);
                }
                break;
            case MUL:
            {
                Poly &f = memo[ya], &g = memo[yb];
                if (f.size() * g.size() > 50 * cap) return false;
                for (auto& m : f)
                    for (auto& n : g)
                    {
                        std::vector<Id> k(m.first.size() + n.first.size());
                        std::merge(m.first.begin(), m.first.end(), n.first.begin(), n.first.end(), k.begin());
                        Rat& q = r[k];
                        q += m.second * n.second;
                        if (q == 0) r.erase(k);
                    }
                break;
            }
        }
        if (r.size() > cap) return false;
        memo[y].swap(r);
    }
    return true;
}
static bool relaxedZero(Id a, Id b, double tol, double B)
{
    Frac f = frac(mkSub(a, b));
    if (!f.den.empty()) return false;
    std::unordered_map<Id, Poly> memo;
    if (!expandPoly(f.num, memo)) return false;
    const Poly& pl = memo[f.num];
    double sum = 0;
    for (auto& m : pl)
    {
        if (m.first.size() > 20) return false;
        sum += fabs((double)m.second) * pow(B, m.first.size());
    }
    if (sum > 2 * tol) return false;  // hopeless, do not ask
    std::ostringstream o;
    o << "(set-logic QF_LRA)\n";
    // the ranges are symmetric, so a coefficient may be replaced by any upper bound of its size: round up to 2^-80
    auto rat = [&](const Rat& q) {
        CV c;
        cpp_int n = abs(numerator(q)) << 80, d = denominator(q);
        c.n = n / d + 1;
        c.d = cpp_int(1) << 80;
        c.v = 0;
        rat2smt(o, c);
    };
    int i = 0;
    for (auto& m : pl)
    {
        o << "(declare-const m" << i << " Real)(assert (and (<= (- " << (long long)pow(B, m.first.size()) << ") m" << i << ") (<= m" << i << " "
          << (long long)pow(B, m.first.size()) << ")))\n";
        i++;
    }
    o << "(define-fun s () Real (+ 0 0";
    i = 0;
    for (auto& m : pl) { o << " (* "; rat(m.second); o << " m" << i++ << ")"; }
    o << "))\n";
    CV ct = consts[N[mkConst(tol)].a];
    o << "(assert (or (> s "; rat2smt(o, ct); o << ") (< s (- "; rat2smt(o, ct); o << "))))\n(check-sat)\n";
    double t0 = now();
    std::string out = runSolver(solver, o.str(), 10);
    sh->queries++;
    sh->msSolver += (long)((now() - t0) * 1000);
    bool ok = !out.compare(0, 5, "unsat");
    if (ok) sh->unsatQ++;
    return ok;
}
static void decideOne(const Pend& p)
{
    // 1. exact
    Query q;
    q.base = pc;
    Rel nr = p.r == EQ ? NE : p.r == LE ? LT : LE;
    Cond neg = p.r == EQ ? Cond{NE, p.a, p.b} : Cond{nr, p.b, p.a};
    q.anyOf.push_back(neg);
    Answer a = ask(q, qTimeout, true);
    if (a.r == 0) { resCount["unsat"]++; return; }
    // concrete witnesses: does the current model (or a sampled one) violate clearly?
    if (a.r == 1)
    {
        q.congruence = true;
        Answer a2 = ask(q, qTimeout, true);
        if (a2.r == 0) { resCount["unsat"]++; return; }
        if (a2.r == 1) a = a2;
    }
    // 2. tolerance
    Query t;
    t.base = pc;
    t.box = 8;
    t.congruence = true;
    Id tol = mkConst(p.tol);
    if (p.r == EQ || p.r == LE || p.r == LT) t.anyOf.push_back({LT, mkAdd(p.b, tol), p.a});
    if (p.r == EQ) t.anyOf.push_back({LT, mkAdd(p.a, tol), p.b});
    Answer b = ask(t, qTimeout, true);
    if (b.r == 0)
    {
        resCount[a.r == 1 ? "unsat_tol" : "unsat_tol"]++;
        return;
    }
    // an exact model may be a rounding-size difference blown up by huge values: only models of ordinary size are adopted
    auto ordinary = [](const Answer& x) { for (auto& m : x.model) if (!(fabs(m.second) < 1e4)) return false; return true; };
    if (b.r != 1 && a.r == 1 && !ordinary(a))
    {
        q.box = 8;
        a = ask(q, qTimeout, true);
        if (a.r == 0) a.r = -1;
        if (a.r == 1 && !ordinary(a)) a.r = -1;
    }
    if (b.r == 1) adopt(b);
    else if (a.r == 1) adopt(a);
    if (a.r != 1 && b.r != 1)
    {
        resCount["unknown"]++;
        // try numeric witness
        double x = mval(p.a), y = mval(p.b), m = 1e-5 * (1 + fabs(x) + fabs(y));
        bool bad = p.r == EQ ? fabs(x - y) > m : x > y + m;
        if (bad && pcSat()) recordCex(p.label, "numeric", num(x) + " vs " + num(y));
        else emitLine("{\"t\":\"unknown\",\"label\":" + js(p.label) + "}");
        return;
    }
    resCount["sat"]++;
    recordCex(p.label, "sat", num(mval(p.a)) + " vs " + num(mval(p.b)));
}
static void flushAsserts()
{
    if (pend.empty()) return;
    std::vector<Pend> p;
    p.swap(pend);
    bool anyFail = false;
    for (auto& x : p) if (x.concreteFail) anyFail = true;
    if (!pcSat()) { emitLine("{\"t\":\"path\",\"status\":\"infeasible\"}"); return; }
    sh->live++;
    std::vector<Pend> s;
    // numerically wrong at the current witness? -> candidate immediately
    for (auto& x : p)
    {
        if (x.concreteFail) { recordCex(x.label, "concrete", x.detail); resCount["concrete_fail"]++; continue; }
        s.push_back(x);
    }
    std::vector<Pend> rest;
    for (auto& x : s)
    {
        double u = mval(x.a), v = mval(x.b), m = std::max(1e-5, x.tol) * (1 + fabs(u) + fabs(v));
        bool bad = x.r == EQ ? fabs(u - v) > m : u > v + m;
        if (u == u && v == v && bad && modelVal.empty()) { recordCex(x.label, "witness", num(u) + " vs " + num(v)); resCount["witness"]++; }
        // not identical as rational functions: a rounding-size difference?
        else if (x.r == EQ && N[x.a].fp != N[x.b].fp && relaxedZero(x.a, x.b, x.tol, 8)) resCount["unsat_tol"]++;
        else rest.push_back(x);
    }
    sh->asserts += p.size();
    size_t chunk = 40;
    for (size_t i = 0; i < rest.size(); i += chunk)
    {
        Query q;
        q.base = pc;
        size_t e = std::min(rest.size(), i + chunk), cnt = 0;
        for (size_t j = i; j < e; j++)
        {
            auto& x = rest[j];
            cnt++;
            if (x.r == EQ) q.anyOf.push_back({NE, x.a, x.b});
            else q.anyOf.push_back({x.r == LE ? LT : LE, x.b, x.a});
        }
        if (!cnt) continue;
        Answer a = ask(q, qTimeout, false);
        if (a.r == 0) { resCount["unsat"] += cnt; continue; }
        for (size_t j = i; j < e; j++)
            decideOne(rest[j]);
    }
}
[[noreturn]] static void finish(const char* status, const std::string& msg = "")
{
    if (!finishing)
    {
        finishing = true;
        flushAsserts();
    }
    std::string s = std::string("{\"t\":\"path\",\"status\":\"") + status + "\"";
    if (!msg.empty()) s += ",\"msg\":" + js(msg);
    s += ",\"choices\":" + choicesJson() + ",\"nodes\":" + std::to_string(N.size()) + ",\"pc\":" + std::to_string(pc.size()) + ",\"labels\":{";
    bool f = true;
    for (auto& p : labelCount) { s += (f ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); f = false; }
    s += "},\"res\":{";
    f = true;
    for (auto& p : resCount) { s += (f ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); f = false; }
    s += "}}";
    emitLine(s);
    sh->paths++;
    if (ownSlot) { sh->running--; ownSlot = false; }
    for (pid_t k : kids)
    {
        int st;
        waitpid(k, &st, 0);
    }
    fflush(stdout);
    _exit(0);
}
static void resetChildCounters() { labelCount.clear(); resCount.clear(); kids.clear(); }
// fork; returns true in the child
static bool forkPath()
{
    sh->forks++;
    bool slot = false;
    int r = sh->running.load();
    while (r < maxPar && !(slot = sh->running.compare_exchange_weak(r, r + 1))) {}
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { emitLine("{\"t\":\"path\",\"status\":\"fork-failed\"}"); if (slot) sh->running--; return false; }
    if (pid == 0) { ownSlot = slot; resetChildCounters(); return true; }
    if (slot) kids.push_back(pid);
    else { int st; waitpid(pid, &st, 0); }
    return false;
}
static void checkBudget()
{
    if ((deadline > 0 && now() > deadline) || sh->paths.load() > maxPaths || sh->stop.load())
    {
        sh->budget++;
        finish("budget");
    }
}
static Cond negate(const Cond& c)
{
    switch (c.r)
    {
        case LT: return {LE, c.b, c.a};
        case LE: return {LT, c.b, c.a};
        case EQ: return {NE, c.a, c.b};
        default: return {EQ, c.a, c.b};
    }
}
static std::tuple<int, Id, Id> keyOf(const Cond& c, bool& neg)
{
    neg = false;
    switch (c.r)
    {
        case LT: return {0, c.a, c.b};
        case LE: neg = true; return {0, c.b, c.a};
        case EQ: return {1, std::min(c.a, c.b), std::max(c.a, c.b)};
        default: neg = true; return {1, std::min(c.a, c.b), std::max(c.a, c.b)};
    }
}
// conditions decided on this path by the value they compare, not its spelling: fingerprint of d -> (d, d<0?/d==0?, truth)
struct Known { Id d; bool isEq, truth; };
static std::unordered_map<u64, std::vector<Known>> known;
static Id eqCore(Id d)
{
    while (true)
    {
        if (N[d].op == NEG || N[d].op == DIV) d = N[d].a;
        else if (N[d].op == MUL && isC(N[d].a) && !isZero(N[d].a)) d = N[d].b;
        else if (N[d].op == FUN && fnames[N[d].a] == "abs") d = argLists[N[d].b][0];
        else return d;
    }
}
static void normal(const Cond& c, Id& d, bool& isEq, bool& neg)
{
    isEq = c.r == EQ || c.r == NE;
    neg = c.r == LE || c.r == NE;
    d = c.r == LE ? mkSub(c.b, c.a) : mkSub(c.a, c.b);
    if (isEq) d = eqCore(d);
}
// syntactically non-negative: squares, absolute values, square roots and their sums and products
static bool nonNeg(Id x, int depth = 0)
{
    if (depth > 40) return false;
    switch (N[x].op)
    {
        case CONST: return consts[N[x].a].n >= 0;
        case ADD: return nonNeg(N[x].a, depth + 1) && nonNeg(N[x].b, depth + 1);
        case MUL: return N[x].a == N[x].b || (nonNeg(N[x].a, depth + 1) && nonNeg(N[x].b, depth + 1));
        case DIV: return nonNeg(N[x].a, depth + 1) && nonNeg(N[x].b, depth + 1);
        case FUN: { const std::string& f = fnames[N[x].a]; return f == "abs" || f == "sqrt" || f == "exp" || f == "cosh"; }
        default: return false;
    }
}
static int lookupKnown(const Cond& c)
{
    Id d;
    bool isEq, neg;
    normal(c, d, isEq, neg);
    if (!isEq && nonNeg(d)) return neg;  // d<0 is false
    auto find = [&](u64 fp, bool eq, bool minus) {
        auto it = known.find(fp);
        if (it == known.end()) return -1;
        for (auto& k : it->second)
            if (k.isEq == eq && proveEqual(k.d, minus ? mkNeg(d) : d)) return (int)k.truth;
        return -1;
    };
    u64 fp = N[d].fp, fm = fp ? P - fp : 0;
    int r = find(fp, isEq, false);
    if (r < 0 && isEq) r = find(fm, true, true);
    if (r < 0 && find(fm, false, true) == 1) r = 0;                   // -d<0 -> not d<0, not d==0
    if (r < 0 && isEq && find(fp, false, false) == 1) r = 0;          // d<0 -> not d==0
    if (r < 0 && !isEq && (find(fp, true, false) == 1 || find(fm, true, true) == 1)) r = 0;  // d==0 -> not d<0
    return r < 0 ? -1 : (r != 0) != neg;
}
static void learn(const Cond& c, bool v)
{
    bool ng;
    auto k = keyOf(c, ng);
    decided[k] = v != ng;
    Id d;
    bool isEq, neg;
    normal(c, d, isEq, neg);
    known[N[d].fp].push_back({d, isEq, v != neg});
}
static bool decide(const Cond& c0)
{
    Cond c = c0;
    Id d = mkSub(c.a, c.b);
    if (isC(d))
    {
        const CV& v = consts[N[d].a];
        int s = v.n < 0 ? -1 : v.n > 0 ? 1 : 0;
        switch (c.r) { case LT: return s < 0; case LE: return s <= 0; case EQ: return s == 0; default: return s != 0; }
    }
    bool ng;
    auto k = keyOf(c, ng);
    auto it = decided.find(k);
    if (it != decided.end()) return it->second != ng;
    int kn = lookupKnown(c);
    if (kn >= 0) { decided[k] = (kn != 0) != ng; return kn; }
    if (c.r != EQ && c.r != NE)
    {
        // 0 < |x|  <->  x != 0
        Id lo = c.r == LT ? c.a : c.b, hi = c.r == LT ? c.b : c.a;
        if (isZero(lo) && N[hi].op == FUN && fnames[N[hi].a] == "abs")
        {
            bool nz = decide({NE, argLists[N[hi].b][0], mkConst(0)});
            return c.r == LT ? nz : !nz;
        }
    }
    checkBudget();
    flushAsserts();
    int m = evalCond(c);
    Cond no = negate(c);
    Query q;
    bool sideA;  // value of c on the side we continue with
    if (m == 0)
    {
        q.base = pc;
        q.base.push_back(c);
        Answer a = ask(q, qTimeout, true);
        if (a.r == 0) { learn(c, false); return false; }
        if (a.r == 1) adopt(a);
        m = 1;
    }
    sideA = m > 0;
    Cond other = sideA ? no : c, mine = sideA ? c : no;
    q.base = pc;
    q.base.push_back(other);
    Answer a = ask(q, qTimeout, true);
    if (a.r == 0) { learn(c, sideA); return sideA; }
    if (forkPath())
    {
        pc.push_back(other);
        learn(c, !sideA);
        adopt(a);
        return !sideA;
    }
    pc.push_back(mine);
    learn(c, sideA);
    return sideA;
}
static void assumeCond(const Cond& c)
{
    Id d = mkSub(c.a, c.b);
    bool ng;
    if (isC(d))
    {
        const CV& v = consts[N[d].a];
        int s = v.n < 0 ? -1 : v.n > 0 ? 1 : 0;
        bool r = false;
        switch (c.r) { case LT: r = s < 0; break; case LE: r = s <= 0; break; case EQ: r = s == 0; break; default: r = s != 0; }
        if (!r) finish("assume");
        return;
    }
    auto k = keyOf(c, ng);
    auto it = decided.find(k);
    if (it != decided.end()) { if (it->second != ng) return; finish("assume"); }
    flushAsserts();
    pc.push_back(c);
    learn(c, true);
    if (evalCond(c) != 1)
    {
        Query q;
        q.base = pc;
        Answer a = ask(q, qTimeout, true);
        if (a.r == 0) { pc.pop_back(); finish("assume"); }
        if (a.r == 1) adopt(a);
    }
}
[[noreturn]] static void unsupported(const std::string& m)
{
    sh->unsup++;
    finish("unsupported", m);
}

// ---- differentiation
static std::map<Id, std::unordered_map<Id, Id>> dMemo;
static Id diff(Id x, Id v)
{
    auto& memo = dMemo[v];
    std::vector<Id> st{x};
    while (!st.empty())
    {
        Id y = st.back();
        if (memo.count(y)) { st.pop_back(); continue; }
        Node n = N[y];
        bool ready = true;
        auto need = [&](Id z) { if (!memo.count(z)) { st.push_back(z); ready = false; } };
        if (n.op >= ADD && n.op <= DIV) { need(n.a); if (n.op != NEG) need(n.b); }
        else if (n.op == FUN) for (Id z : argLists[n.b]) need(z);
        if (!ready) continue;
        st.pop_back();
        Id r;
        switch (n.op)
        {
            case CONST: r = mkConst(0); break;
            case VAR: r = mkConst(y == v ? 1 : 0); break;
            case ADD: r = mkAdd(memo[n.a], memo[n.b]); break;
            case SUB: r = mkSub(memo[n.a], memo[n.b]); break;
            case NEG: r = mkNeg(memo[n.a]); break;
            case MUL: r = mkAdd(mkMul(memo[n.a], n.b), mkMul(n.a, memo[n.b])); break;
            case DIV: r = isZero(memo[n.b]) ? mkDiv(memo[n.a], n.b) : mkDiv(mkSub(mkMul(memo[n.a], n.b), mkMul(n.a, memo[n.b])), mkMul(n.b, n.b)); break;
            default:
            {
                std::vector<Id> al = argLists[n.b];
                std::string f = fnames[n.a];
                r = mkConst(0);
                for (size_t i = 0; i < al.size(); i++)
                {
                    Id da = memo[al[i]];
                    if (isZero(da)) continue;
                    Id p;
                    if (f == "sqrt") p = mkDiv(mkConst(0.5), y);
                    else if (f == "abs") p = mkDiv(al[0], y);
                    else if (f == "sin") p = mkFun("cos", al);
                    else if (f == "cos") p = mkNeg(mkFun("sin", al));
                    else if (f == "tan") p = mkAdd(mkConst(1), mkMul(y, y));
                    else if (f == "exp") p = y;
                    else if (f == "log") p = mkDiv(mkConst(1), al[0]);
                    else if (f == "tanh") p = mkSub(mkConst(1), mkMul(y, y));
                    else if (f == "sinh") p = mkFun("cosh", al);
                    else if (f == "cosh") p = mkFun("sinh", al);
                    else if (f == "atan") p = mkDiv(mkConst(1), mkAdd(mkConst(1), mkMul(al[0], al[0])));
                    else p = mkFun(f + ".d" + std::to_string(i), al);
                    r = mkAdd(r, mkMul(p, da));
                }
            }
        }
        memo[y] = r;
    }
    return memo[x];
}

// ---- pass entry points
static inline bool any(double a, double b) { return isBox(a) || isBox(b); }
static bool isNaN(double d) { return !isBox(d) && d != d; }
static bool isInf(double d) { return !isBox(d) && (d == HUGE_VAL || d == -HUGE_VAL); }
extern "C" {
int __symrt_fcmp(int pred, double a, double b);
double __symrt_add(double a, double b)
{
    if (!any(a, b)) return a + b;
    if (isNaN(a) || isNaN(b)) return NAN;
    if (isInf(a)) return a;
    if (isInf(b)) return b;
    return box(mkAdd(idOf(a), idOf(b)));
}
double __symrt_neg(double a)
{
    if (!isBox(a)) return -a;
    return box(mkNeg(idOf(a)));
}
double __symrt_sub(double a, double b)
{
    if (!any(a, b)) return a - b;
    if (isNaN(a) || isNaN(b)) return NAN;
    if (isInf(a)) return a;
    if (isInf(b)) return -b;
    return box(mkSub(idOf(a), idOf(b)));
}
double __symrt_mul(double a, double b)
{
    if (!any(a, b)) return a * b;
    if (isNaN(a) || isNaN(b)) return NAN;
    if (isInf(a) || isInf(b))
    {
        double s = isBox(a) ? a : b, i = isBox(a) ? b : a;
        if (decide({LT, mkConst(0), idOf(s)})) return i;
        if (decide({LT, idOf(s), mkConst(0)})) return -i;
        return NAN;
    }
    return box(mkMul(idOf(a), idOf(b)));
}
static bool divZeroFork = false;
double __symrt_div(double a, double b)
{
    if (!any(a, b)) return a / b;
    if (isNaN(a) || isNaN(b)) return NAN;
    if (isInf(b)) return 0.0;
    if (isInf(a))
    {
        if (decide({LE, mkConst(0), idOf(b)})) return a;
        return -a;
    }
    if (!isBox(b) && b == 0)
    {
        if (decide({LT, mkConst(0), idOf(a)})) return std::signbit(b) ? -HUGE_VAL : HUGE_VAL;
        if (decide({LT, idOf(a), mkConst(0)})) return std::signbit(b) ? HUGE_VAL : -HUGE_VAL;
        return NAN;
    }
    Id ib = idOf(b), ia = idOf(a);
    if (isBox(b))
    {
        bool ng;
        Cond c{NE, ib, mkConst(0)};
        auto it = decided.find(keyOf(c, ng));
        if (it != decided.end() && it->second == ng)
        {
            // denominator is zero on this path
            if (!isBox(a) && a == 0) return NAN;
            if (decide({LT, mkConst(0), ia})) return HUGE_VAL;
            if (decide({LT, ia, mkConst(0)})) return -HUGE_VAL;
            return NAN;
        }
    }
    return box(mkDiv(ia, ib));
}
int __symrt_fcmp(int pred, double a, double b)
{
    // LLVM: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
    if (!any(a, b))
    {
        bool un = a != a || b != b;
        if (pred == 0) return 0;
        if (pred == 15) return 1;
        if (pred == 7) return !un;
        if (pred == 8) return un;
        if (un) return pred >= 8;
        switch (pred & 7) { case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b; case 6: return a != b; }
        return 0;
    }
    if (pred == 0) return 0;
    if (pred == 15) return 1;
    if (isNaN(a) || isNaN(b)) return pred >= 8;
    if (pred == 7) return 1;
    if (pred == 8) return 0;
    if (isInf(a) || isInf(b))
    {
        double x = isInf(a) ? a : 0, y = isInf(b) ? b : 0;
        switch (pred & 7) { case 1: return 0; case 2: return x > y; case 3: return x >= y; case 4: return x < y; case 5: return x <= y; case 6: return 1; }
    }
    Id i = idOf(a), j = idOf(b);
    switch (pred & 7)
    {
        case 1: return decide({EQ, i, j});
        case 2: return decide({LT, j, i});
        case 3: return decide({LE, j, i});
        case 4: return decide({LT, i, j});
        case 5: return decide({LE, i, j});
        case 6: return decide({NE, i, j});
    }
    return 0;
}
static double floorSym(Id e)
{
    for (int n = 0; n < 200; n++)
    {
        double g = mval(e);
        if (!(g == g) || fabs(g) > 1e9) g = 0;
        double k = floor(g + 1e-9);
        if (decide({LE, mkConst(k), e}))
        {
            if (decide({LT, e, mkConst(k + 1)})) return k;
        }
        // this process now has a model on the other side
        checkBudget();
    }
    unsupported("unbounded integer conversion");
}
static Id ceilArg(Id e) { return mkNeg(e); }
double __symrt_floor(double a) { return isBox(a) ? floorSym(idOf(a)) : floor(a); }
double __symrt_ceil(double a) { return isBox(a) ? -floorSym(ceilArg(idOf(a))) : ceil(a); }
double __symrt_trunc(double a)
{
    if (!isBox(a)) return trunc(a);
    if (decide({LE, mkConst(0), idOf(a)})) return floorSym(idOf(a));
    return -floorSym(mkNeg(idOf(a)));
}
double __symrt_round(double a)
{
    if (!isBox(a)) return round(a);
    Id h = mkConst(0.5);
    if (decide({LE, mkConst(0), idOf(a)})) return floorSym(mkAdd(idOf(a), h));
    return -floorSym(mkAdd(mkNeg(idOf(a)), h));
}
double __symrt_rint(double a) { return isBox(a) ? __symrt_round(a) : rint(a); }
double __symrt_nearbyint(double a) { return isBox(a) ? __symrt_round(a) : nearbyint(a); }
long __symrt_fptosi(double a) { return isBox(a) ? (long)__symrt_trunc(a) : (long)a; }
unsigned long __symrt_fptoui(double a)
{
    if (!isBox(a)) return (unsigned long)a;
    double t = __symrt_trunc(a);
    return t < 0 ? (unsigned long)(long)t : (unsigned long)t;
}
long __symrt_lround(double a) { return isBox(a) ? (long)__symrt_round(a) : lround(a); }
double __symrt_fabs(double a)
{
    if (!isBox(a)) return fabs(a);
    if (absTerms)
    {
        // one term per pair {x,-x}; the solver gets the defining axioms instead of a fork
        Id i = idOf(a);
        if (N[i].fp > P / 2) i = mkNeg(i);
        return box(mkFun("abs", {i}));
    }
    if (decide({LE, mkConst(0), idOf(a)})) return a;
    return __symrt_neg(a);
}
double __symrt_fmin(double a, double b)
{
    if (!any(a, b)) return fmin(a, b);
    if (isNaN(a)) return b;
    if (isNaN(b)) return a;
    return __symrt_fcmp(4, a, b) ? a : b;
}
double __symrt_fmax(double a, double b)
{
    if (!any(a, b)) return fmax(a, b);
    if (isNaN(a)) return b;
    if (isNaN(b)) return a;
    return __symrt_fcmp(4, a, b) ? b : a;
}
double __symrt_fdim(double a, double b) { return __symrt_fcmp(2, a, b) ? __symrt_sub(a, b) : 0.0; }
double __symrt_fma(double a, double b, double c)
{
    if (!isBox(a) && !isBox(b) && !isBox(c)) return a * b + c;
    return __symrt_add(__symrt_mul(a, b), c);
}
double __symrt_copysign(double a, double b)
{
    if (!any(a, b)) return copysign(a, b);
    double m = __symrt_fabs(a);
    bool neg = isBox(b) ? decide({LT, idOf(b), mkConst(0)}) : std::signbit(b);
    return neg ? __symrt_neg(m) : m;
}
double __symrt_fmod(double a, double b)
{
    if (!any(a, b)) return fmod(a, b);
    double n = __symrt_trunc(__symrt_div(a, b));
    return __symrt_sub(a, __symrt_mul(n, b));
}
double __symrt_remainder(double a, double b)
{
    if (!any(a, b)) return remainder(a, b);
    double n = __symrt_round(__symrt_div(a, b));
    return __symrt_sub(a, __symrt_mul(n, b));
}
double __symrt_sqrt(double a)
{
    if (!isBox(a)) return sqrt(a);
    if (!decide({LE, mkConst(0), idOf(a)})) return NAN;
    // sqrt(x*x) = |x|
    Id i = idOf(a);
    if (N[i].op == MUL && N[i].a == N[i].b) return __symrt_fabs(box(N[i].a));
    return box(mkFun("sqrt", {i}));
}
double __symrt_powi(double a, int n)
{
    if (!isBox(a)) return __builtin_powi(a, n);
    double r = 1;
    for (int i = 0; i < abs(n); i++) r = __symrt_mul(r, a);
    return n < 0 ? __symrt_div(1.0, r) : r;
}
double __symrt_pow(double a, double b)
{
    if (!any(a, b)) return pow(a, b);
    if (!isBox(b))
    {
        if (b == floor(b) && fabs(b) <= 16) return __symrt_powi(a, (int)b);
        if (2 * b == floor(2 * b) && fabs(b) <= 8) return __symrt_powi(__symrt_sqrt(a), (int)(2 * b));
    }
    return box(mkFun("pow", {idOf(a), idOf(b)}));
}
#define UN(f) double __symrt_##f(double a) { return isBox(a) ? box(mkFun(#f, {idOf(a)})) : f(a); }
UN(sin) UN(cos) UN(tan) UN(asin) UN(acos) UN(atan) UN(sinh) UN(cosh) UN(tanh) UN(exp) UN(log) UN(cbrt) UN(erf)
double __symrt_exp2(double a) { if (isBox(a)) unsupported("exp2"); return exp2(a); }
double __symrt_expm1(double a) { if (isBox(a)) return __symrt_sub(__symrt_exp(a), 1.0); return expm1(a); }
double __symrt_log2(double a) { if (isBox(a)) unsupported("log2"); return log2(a); }
double __symrt_log10(double a) { if (isBox(a)) unsupported("log10"); return log10(a); }
double __symrt_log1p(double a) { if (isBox(a)) return __symrt_log(__symrt_add(1.0, a)); return log1p(a); }
double __symrt_hypot(double a, double b);
double __symrt_cabs(double a, double b) { return !isBox(b) && b == 0 ? __symrt_fabs(a) : __symrt_hypot(a, b); }
double __symrt_hypot(double a, double b)
{
    if (!any(a, b)) return hypot(a, b);
    return __symrt_sqrt(__symrt_add(__symrt_mul(a, a), __symrt_mul(b, b)));
}
double __symrt_atan2(double a, double b) { return any(a, b) ? box(mkFun("atan2", {idOf(a), idOf(b)})) : atan2(a, b); }
int __symrt_fpclass(double a, int mask)
{
    // bits: 0 snan,1 qnan,2 -inf,3 -normal,4 -sub,5 -0,6 +0,7 +sub,8 +normal,9 +inf
    if (!isBox(a))
    {
        int m = 0;
        if (a != a) m = 3;
        else if (a - a != 0) m = a < 0 ? 4 : 0x200;
        else if (a == 0) m = std::signbit(a) ? 0x20 : 0x40;
        else if (fabs(a) < 2.2250738585072014e-308) m = a < 0 ? 0x10 : 0x80;
        else m = a < 0 ? 8 : 0x100;
        return (m & mask) != 0;
    }
    const int fin = 0x1F8;
    if ((mask & fin) == fin) return 1;
    if ((mask & fin) == 0) return 0;
    unsupported("fpclass");
}
void __symrt_narrow(double a) { if (isBox(a)) unsupported("float/long double conversion of a symbolic value"); }
void __symrt_vector() { unsupported("vector arithmetic"); }
void __symrt_ext(const char* n, double a) { if (isBox(a)) unsupported(std::string("external function ") + n); }

// ---- harness API
double sym_real(const char* name, double lo, double hi)
{
    auto it = varByName.find(name);
    if (it != varByName.end()) return box(it->second);
    vars.push_back({name, lo, hi});
    Id i = push(VAR, (Id)vars.size() - 1, 0, fam_hash(name, 5) % P);
    varByName[name] = i;
    return box(i);
}
int sym_choice(const char* name, int n)
{
    static const char* forced = getenv("SYM_FORCE");  // debugging: name=value,name=value
    if (forced)
    {
        std::string f = std::string(",") + forced + ",", k = std::string(",") + name + "=";
        size_t p = f.find(k);
        if (p != std::string::npos) { int v = atoi(f.c_str() + p + k.size()); choices.push_back({name, v}); return v; }
    }
    for (int i = 0; i < n - 1; i++)
    {
        checkBudget();
        if (forkPath()) { choices.push_back({name, i}); return i; }
    }
    choices.push_back({name, n - 1});
    return n - 1;
}
double sym_uf(const char* f, const double* a, int n)
{
    std::vector<Id> v;
    for (int i = 0; i < n; i++)
    {
        if (isNaN(a[i]) || isInf(a[i])) return NAN;
        v.push_back(idOf(a[i]));
    }
    return box(mkFun(f, v));
}
double sym_duf(const char* f, int i, const double* a, int n)
{
    return sym_uf((std::string(f) + ".d" + std::to_string(i)).c_str(), a, n);
}
static void assume(Rel r, double a, double b)
{
    if (isNaN(a) || isNaN(b)) finish("assume");
    if (!any(a, b))
    {
        bool ok = r == LT ? a < b : r == LE ? a <= b : r == EQ ? a == b : a != b;
        if (!ok) finish("assume");
        return;
    }
    assumeCond({r, idOf(a), idOf(b)});
}
void sym_assume_lt(double a, double b) { assume(LT, a, b); }
void sym_assume_le(double a, double b) { assume(LE, a, b); }
void sym_assume_eq(double a, double b) { assume(EQ, a, b); }
void sym_assume_ne(double a, double b) { assume(NE, a, b); }
void sym_assume_bool(bool c) { if (!c) finish("assume"); }
static std::string labBase(const char* l)
{
    std::string s(l);
    size_t p = s.find('[');
    return p == std::string::npos ? s : s.substr(0, p);
}
static void doAssert(Rel r, double a, double b, const char* label, double tol)
{
    labelCount[labBase(label)]++;
    Pend p{r, 0, 0, label, tol, false, ""};
    if (!any(a, b))
    {
        double m = tol * (1 + fabs(a) + fabs(b));
        bool ok = r == EQ ? (fabs(a - b) <= m || a == b) : r == LE ? a <= b + m : a < b + m;
        sh->asserts++;
        if (ok) { resCount["concrete_ok"]++; return; }
        p.concreteFail = true;
        p.detail = std::to_string(a) + " vs " + std::to_string(b);
    }
    else if (isNaN(a) || isNaN(b) || isInf(a) || isInf(b))
    {
        if (r != EQ && ((isInf(a) && a < 0) || (isInf(b) && b > 0))) { resCount["concrete_ok"]++; return; }
        p.concreteFail = true;
        p.detail = "non-finite value";
    }
    else { p.a = idOf(a); p.b = idOf(b); }
    pend.push_back(p);
    if (pend.size() > 400) flushAsserts();
}
void sym_assert_eq_(double a, double b, const char* l, double tol) { doAssert(EQ, a, b, l, tol); }
void sym_assert_le_(double a, double b, const char* l, double tol) { doAssert(LE, a, b, l, tol); }
void sym_assert_lt_(double a, double b, const char* l, double tol) { doAssert(LT, a, b, l, tol); }
void sym_assert_bool_(bool c, const char* l)
{
    labelCount[labBase(l)]++;
    sh->asserts++;
    if (c) { resCount["path_ok"]++; return; }
    Pend p{EQ, 0, 0, l, 0, true, "condition false"};
    pend.push_back(p);
}
void sym_assert_deriv_(double a, const char* var, double d, const char* l, double tol)
{
    auto it = varByName.find(var);
    if (it == varByName.end()) unsupported(std::string("unknown variable ") + var);
    if (isNaN(a) || isInf(a)) { doAssert(EQ, a, d, l, tol); return; }
    doAssert(EQ, box(diff(idOf(a), it->second)), d, l, tol);
}
bool sym_is_replay() { return false; }
// the scheduler (sched.cpp) found that the program cannot go on
void sym_sched_fail(const char* l)
{
    labelCount[labBase(l)]++;
    sh->asserts++;
    Pend p{EQ, 0, 0, l, 0, true, "threads stuck"};
    pend.push_back(p);
    finish("stuck", l);
}
void sym_note(const char* m) { emitLine("{\"t\":\"note\",\"msg\":" + js(m) + "}"); }
}
static void onSignal(int s)
{
    static int depth = 0;
    if (depth++ || finishing) { emitLine("{\"t\":\"path\",\"status\":\"crash-in-runtime\",\"msg\":\"signal " + std::to_string(s) + "\"}"); if (ownSlot) sh->running--; _exit(3); }
    labelCount["no-crash"]++;
    Pend p{EQ, 0, 0, std::string("no-crash"), 0, true, "signal " + std::to_string(s)};
    pend.push_back(p);
    finish("crash", "signal " + std::to_string(s));
}
int main(int argc, char** argv)
{
    const char* o = getenv("SYM_OUT");
    if (o) outFd = open(o, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (getenv("SYM_DEBUG")) debug = true;
    if (getenv("SYM_ABS")) absTerms = atoi(getenv("SYM_ABS"));
    if (getenv("SYM_PAR")) maxPar = atoi(getenv("SYM_PAR"));
    if (getenv("SYM_MAXPATHS")) maxPaths = atol(getenv("SYM_MAXPATHS"));
    if (getenv("SYM_QT")) qTimeout = atof(getenv("SYM_QT"));
    if (getenv("SYM_BUDGET")) deadline = now() + atof(getenv("SYM_BUDGET"));
    if (getenv("SYM_Z3")) solver = getenv("SYM_Z3");
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->running = 1;
    N.reserve(1 << 16);
    static char alt[1 << 18];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    fflush(stdout);
    // root process: keep a supervisor so that statistics are written after everything has ended
    pid_t root = fork();
    if (root)
    {
        int st;
        waitpid(root, &st, 0);
        std::ostringstream s;
        s << "{\"t\":\"stats\",\"paths\":" << sh->paths << ",\"queries\":" << sh->queries << ",\"solver_ms\":" << sh->msSolver
          << ",\"forks\":" << sh->forks << ",\"asserts\":" << sh->asserts << ",\"unsupported\":" << sh->unsup << ",\"budget\":" << sh->budget
          << ",\"unsat\":" << sh->unsatQ << ",\"sat\":" << sh->satQ << ",\"unknown\":" << sh->unkQ << ",\"witnessed\":" << sh->live << "}";
        emitLine(s.str());
        return 0;
    }
    try { sym_main(); }
    catch (const std::exception& e)
    {
        labelCount["no-exception"]++;
        Pend p{EQ, 0, 0, std::string("no-exception"), 0, true, e.what()};
        pend.push_back(p);
        finish("exception", e.what());
    }
    finish("done");
}
