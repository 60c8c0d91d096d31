// Concrete smooth function family used for witnesses of uninterpreted functions (same in symbolic run and replay).
#pragma once
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
static inline uint64_t fam_mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline uint64_t fam_hash(const std::string& s, uint64_t seed)
{
    uint64_t h = fam_mix(seed + 17);
    for (char c : s)
        h = fam_mix(h ^ (unsigned char)c);
    return h;
}
static inline double fam_u(uint64_t& s)  // in [-1,1]
{
    s = fam_mix(s);
    return (double)(int64_t)(s >> 11) / (double)(1ull << 52) - 1.0;
}
// name = base[.dI[.dJ...]]
static inline double fam_eval(const std::string& name, const double* x, int n, uint64_t seed)
{
    std::string base = name;
    std::vector<int> d;
    size_t p = name.find(".d");
    if (p != std::string::npos)
    {
        base = name.substr(0, p);
        while (p != std::string::npos)
        {
            size_t q = name.find(".d", p + 2);
            d.push_back(atoi(name.substr(p + 2, q == std::string::npos ? q : q - p - 2).c_str()));
            p = q;
        }
    }
    uint64_t s = fam_hash(base, seed);
    double r = 0;
    double c = fam_u(s);
    if (d.empty())
        r += c;
    for (int i = 0; i < n; i++)
    {
        double b = fam_u(s);
        if (d.empty())
            r += b * x[i];
        else if (d.size() == 1 && d[0] == i)
            r += b;
    }
    for (int j = 0; j < 3; j++)
    {
        double a = fam_u(s), ph = fam_u(s) * 3, arg = ph, f = a;
        for (int i = 0; i < n; i++)
        {
            double w = fam_u(s) * 1.3;
            arg += w * x[i];
            for (int k : d)
                if (k == i)
                    f *= w;
        }
        r += f * std::sin(arg + d.size() * 1.5707963267948966);
    }
    return r;
}
