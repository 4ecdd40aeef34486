// Fraction oracle on __int128
#pragma once
#include "mon.hpp"
#include "fraction.hpp"
#include <climits>
#include <numeric>
#include <optional>
using pyincpp::Fraction;
using i128 = __int128;
struct Q // lowest terms, positive denominator
{
    i128 n, d;
};
inline i128 gcd128(i128 a, i128 b)
{
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b)
    {
        const i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
inline Q mkq(i128 n, i128 d)
{
    const i128 g = gcd128(n, d);
    n /= g, d /= g;
    if (d < 0)
        n = -n, d = -d;
    return {n, d};
}
inline bool fits(const Q& q)
{
    return q.n >= INT_MIN && q.n <= INT_MAX && q.d <= INT_MAX;
}
inline std::string qs(const Q& q)
{
    auto s = [](i128 v)
    {
        std::string r;
        const bool neg = v < 0;
        unsigned __int128 u = neg ? -(unsigned __int128)v : v;
        do
            r.insert(r.begin(), char('0' + int(u % 10)));
        while (u /= 10);
        return neg ? "-" + r : r;
    };
    return s(q.n) + "/" + s(q.d);
}
inline std::string fs(const Fraction& f)
{
    return std::to_string(f.numerator()) + "/" + std::to_string(f.denominator());
}
inline bool same(const Fraction& f, const Q& q)
{
    return f.numerator() == q.n && f.denominator() == q.d;
}
inline Q q_of(const Fraction& f)
{
    return {f.numerator(), f.denominator()};
}
inline int gen_component(Rng& r)
{
    switch (r.range(0, 7))
    {
        case 0: return r.range(-3, 3);
        case 1: return r.range(-30, 30);
        case 2: return r.range(-1000, 1000);
        case 3: return r.range(-70000, 70000);
        case 4: return INT_MAX - r.range(0, 20);
        case 5: return INT_MIN + r.range(0, 20);
        case 6: // smooth numbers: much cancellation
        {
            long long v = 1;
            for (int i = r.range(1, 12); i > 0 && v < 100000000; --i)
                v *= r.of<int>({2, 2, 3, 5, 7});
            return r.chance(1, 2) ? -int(v) : int(v);
        }
        default: return r.range(INT_MIN, INT_MAX);
    }
}
// a fraction whose lowest terms are representable, as raw arguments
inline std::pair<int, int> gen_raw(Rng& r)
{
    while (true)
    {
        const int n = gen_component(r), d = gen_component(r);
        if (d != 0 && fits(mkq(n, d)))
            return {n, d};
    }
}
