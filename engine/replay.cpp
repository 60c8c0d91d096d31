// Native replay runtime: runs the harness once on concrete inputs, with ordinary doubles and no instrumentation.
// Input file (argv[1]) lines:  v <name> <value> | c <name> <value> | u <fname> <n> <args...> <value> | s <seed> | r (random vars)
// exit 0: all assertions held; 1: an assertion failed (printed); 77: an assumption of the harness is not met.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "family.h"
#include "sym.h"
static std::map<std::string, double> vals;
static std::vector<std::pair<std::string, int>> ch;
static size_t chPos = 0;
struct U { std::vector<double> a; double v; };
static std::map<std::string, std::vector<U>> ufs;
static uint64_t seed = 0;
static bool rnd = false, derivOn = true;
static std::string perturb;
static double perturbH = 0;
static int fails = 0;
struct DRec { double a, d, tol; char var[64]; char label[160]; };
static std::vector<DRec> drecs;
static int outPipe = -1;
static void fail(const char* label, double a, double b)
{
    if (outPipe >= 0) return;
    fails++;
    if (fails <= 20) printf("REPLAY-FAIL %s: got %.12g, required %.12g\n", label, a, b);
    fflush(stdout);
}
extern "C" {
double sym_real(const char* name, double lo, double hi)
{
    double v;
    auto it = vals.find(name);
    if (it != vals.end() && !rnd) v = it->second;
    else
    {
        uint64_t s = fam_hash(name, seed + 1000);
        v = lo + 0.5 * (fam_u(s) + 1) * (hi - lo);
    }
    if (perturb == name) v += perturbH;
    return v;
}
int sym_choice(const char* name, int n)
{
    if (chPos < ch.size() && ch[chPos].first == name) return ch[chPos++].second;
    for (auto& c : ch) if (c.first == name) return c.second;
    uint64_t s = fam_hash(name, seed);
    return (int)(s % n);
}
double sym_uf(const char* f, const double* a, int n)
{
    auto it = ufs.find(f);
    if (it != ufs.end())
        for (auto& u : it->second)
        {
            if ((int)u.a.size() != n) continue;
            bool ok = true;
            for (int i = 0; ok && i < n; i++) ok = fabs(u.a[i] - a[i]) <= 1e-7 * (1 + fabs(a[i]));
            if (ok) return u.v;
        }
    return fam_eval(f, a, n, seed);
}
double sym_duf(const char* f, int i, const double* a, int n) { return sym_uf((std::string(f) + ".d" + std::to_string(i)).c_str(), a, n); }
static void as(bool ok) { if (!ok) { fflush(stdout); _exit(77); } }
static const double E = 1e-9;
void sym_assume_lt(double a, double b) { as(a < b + E * 0 || perturbH != 0); }
void sym_assume_le(double a, double b) { as(a <= b + E * (1 + fabs(a)) || perturbH != 0); }
void sym_assume_eq(double a, double b) { as(fabs(a - b) <= E * (1 + fabs(a)) || perturbH != 0); }
void sym_assume_ne(double a, double b) { as(a != b || perturbH != 0); }
void sym_assume_bool(bool c) { as(c); }
void sym_assert_eq_(double a, double b, const char* l, double tol)
{
    if (!(fabs(a - b) <= tol * (1 + fabs(a) + fabs(b))) && !(a == b)) fail(l, a, b);
}
void sym_assert_le_(double a, double b, const char* l, double tol) { if (!(a <= b + tol * (1 + fabs(a) + fabs(b)))) fail(l, a, b); }
void sym_assert_lt_(double a, double b, const char* l, double tol) { if (!(a < b + tol * (1 + fabs(a) + fabs(b)))) fail(l, a, b); }
void sym_assert_bool_(bool c, const char* l) { if (!c) fail(l, 0, 1); }
void sym_assert_deriv_(double a, const char* var, double d, const char* l, double tol)
{
    DRec r;
    memset(&r, 0, sizeof r);
    r.a = a; r.d = d; r.tol = tol;
    strncpy(r.var, var, 63);
    strncpy(r.label, l, 159);
    drecs.push_back(r);
    if (!(std::isfinite(a) && std::isfinite(d))) fail(l, d, a);
}
bool sym_is_replay() { return true; }
void sym_sched_fail(const char* l)
{
    fail(l, 1, 0);
    _exit(outPipe < 0 ? 1 : 0);
}
void sym_note(const char*) {}
}
static void onSig(int s)
{
    if (outPipe < 0) { printf("REPLAY-FAIL no-crash: terminated by signal %d\n", s); fflush(stdout); }
    _exit(1);
}
static void runHarness()
{
    chPos = 0;
    try { sym_main(); }
    catch (const std::exception& e)
    {
        if (outPipe < 0) printf("REPLAY-FAIL no-exception: %s\n", e.what());
        fails++;
    }
}
static bool collect(const std::string& var, double h, std::vector<DRec>& out)
{
    int p[2];
    if (pipe(p)) return false;
    fflush(stdout);
    pid_t k = fork();
    if (!k)
    {
        close(p[0]);
        outPipe = p[1];
        perturb = var;
        perturbH = h;
        drecs.clear();
        if (!freopen("/dev/null", "w", stdout)) {}
        runHarness();
        size_t n = drecs.size() * sizeof(DRec), off = 0;
        const char* b = (const char*)drecs.data();
        while (off < n) { ssize_t w = write(p[1], b + off, n - off); if (w <= 0) break; off += w; }
        _exit(0);
    }
    close(p[1]);
    std::string buf;
    char t[65536];
    ssize_t n;
    while ((n = read(p[0], t, sizeof t)) > 0) buf.append(t, n);
    close(p[0]);
    int st;
    waitpid(k, &st, 0);
    out.resize(buf.size() / sizeof(DRec));
    memcpy((void*)out.data(), buf.data(), out.size() * sizeof(DRec));
    return true;
}
int main(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream s(line);
        std::string k, n;
        s >> k;
        if (k == "v") { double v; s >> n >> v; vals[n] = v; }
        else if (k == "c") { int v; s >> n >> v; ch.push_back({n, v}); }
        else if (k == "u")
        {
            int m; U u;
            s >> n >> m;
            for (int i = 0; i < m; i++) { double v; s >> v; u.a.push_back(v); }
            s >> u.v;
            ufs[n].push_back(u);
        }
        else if (k == "s") s >> seed;
        else if (k == "r") rnd = true;
        else if (k == "nod") derivOn = false;
    }
    signal(SIGABRT, onSig);
    signal(SIGSEGV, onSig);
    signal(SIGFPE, onSig);
    signal(SIGBUS, onSig);
    alarm(120);
    runHarness();
    std::vector<DRec> base = drecs;
    if (derivOn)
    {
        std::vector<std::string> vs;
        for (auto& d : base)
        {
            bool f = false;
            for (auto& v : vs) f |= v == d.var;
            if (!f) vs.push_back(d.var);
        }
        for (auto& v : vs)
        {
            // two step widths: a true derivative mismatch persists for both
            std::vector<DRec> P[2], M[2];
            double hs[2] = {1e-4, 1e-5};
            for (int k = 0; k < 2; k++) { collect(v, hs[k], P[k]); collect(v, -hs[k], M[k]); }
            for (size_t i = 0; i < base.size(); i++)
            {
                if (v != base[i].var) continue;
                int bad = 0;
                double fd = 0;
                for (int k = 0; k < 2; k++)
                {
                    if (P[k].size() != base.size() || M[k].size() != base.size()) { bad = -1; break; }
                    fd = (P[k][i].a - M[k][i].a) / (2 * hs[k]);
                    double tol = std::max(base[i].tol, 1e-4);
                    if (!(fabs(fd - base[i].d) <= tol * (1 + fabs(fd) + fabs(base[i].d)))) bad++;
                }
                if (bad == 2) fail(base[i].label, base[i].d, fd);
            }
        }
    }
    printf(fails ? "REPLAY: violated\n" : "REPLAY: holds\n");
    return fails ? 1 : 0;
}
