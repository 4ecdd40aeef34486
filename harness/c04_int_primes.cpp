#include "intx.hpp"

namespace
{
// deterministic Miller-Rabin for 64-bit numbers: independent of trial division
using u64 = std::uint64_t;
u64 mulmod(u64 a, u64 b, u64 m)
{
    return (unsigned __int128)a * b % m;
}
u64 powmod(u64 a, u64 e, u64 m)
{
    u64 r = 1;
    for (a %= m; e; e >>= 1, a = mulmod(a, a, m))
        if (e & 1)
            r = mulmod(r, a, m);
    return r;
}
bool prime64(u64 n)
{
    if (n < 2)
        return false;
    for (u64 p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37})
        if (n % p == 0)
            return n == p;
    u64 d = n - 1;
    int s = 0;
    while (!(d & 1))
        d >>= 1, ++s;
    for (u64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37})
    {
        u64 x = powmod(a, d, n);
        if (x == 1 || x == n - 1)
            continue;
        bool comp = true;
        for (int i = 1; i < s && comp; ++i)
        {
            x = mulmod(x, x, n);
            comp = x != n - 1;
        }
        if (comp)
            return false;
    }
    return true;
}
Int mku(u64 n)
{
    return mk(std::to_string(n));
}
void prime_one(u64 n)
{
    OP("Int::is_prime");
    NOTE("is_prime " << n);
    const Int x = mku(n);
    const bool got = x.is_prime();
    EXPECT(got == prime64(n), "int-is-prime", n << ".is_prime() is " << got);
    EXPECT(text(x) == std::to_string(n), "int-operand-changed", "is_prime changed " << n);
    mon::evaluated();
    mon::count_n(got ? "primes" : "composites", 1);
    if (n > 3)
        mon::nontrivial(mon::hash_mix(1, n));
    SAMPLE(got ? "prime" : "composite", n << ".is_prime() = " << got);
}
void next_one(long long n)
{
    OP("Int::next_prime");
    NOTE("next_prime " << n);
    u64 w = n < 2 ? 2 : u64(n) + 1;
    while (!prime64(w))
        ++w;
    const Int x = mk(std::to_string(n));
    const Int g = x.next_prime();
    check_int(g, w, "int-next-prime", "next_prime of " + std::to_string(n));
    EXPECT(text(x) == std::to_string(n), "int-operand-changed", "next_prime changed " << n);
    mon::evaluated();
    mon::nontrivial(mon::hash_mix(2, u64(n)));
    SAMPLE("next", "next_prime(" << n << ") = " << w);
}
u64 some_prime(Rng& r, u64 lo, u64 hi)
{
    u64 p = r.range(lo, hi);
    while (!prime64(p))
        ++p;
    return p;
}
} // namespace

SUITE(exhaustive, 600, 10000)
{
    for (u64 n = idx * 100; n < idx * 100 + 100; ++n)
        prime_one(n);
}
SUITE(negatives, 40, 400)
{
    for (int i = 0; i < 25; ++i)
    {
        const Int x = idx < 20 ? Int(-int(idx * 25 + i)) : -mk(gen_digits(rng, 40));
        if (x.is_zero())
            continue;
        OP("is_prime negative");
        EXPECT(!x.is_prime(), "int-is-prime-negative", text(x) << ".is_prime() is true");
        OP("next_prime negative");
        check_int(x.next_prime(), 2, "int-next-prime", "next_prime of " + text(x));
        mon::evaluated(2);
    }
}
SUITE(prime_squares, 300, 3000)
{
    u64 p = idx < 200 ? idx + 2 : some_prime(rng, 1000, 20000);
    if (prime64(p))
    {
        prime_one(p * p);
        for (u64 d : {2, 4})
            if (prime64(p + d))
                prime_one(p * (p + d)); // twin and cousin semiprimes
        if (p < 400)
            prime_one(p * p * p);
        prime_one(p * p - 2);
        prime_one(p * p + 2);
    }
}
SUITE(semiprimes, 200, 4000)
{
    const u64 hi = rng.of<u64>({300, 3000, 20000});
    const u64 p = some_prime(rng, 2, hi), q = some_prime(rng, 2, hi);
    prime_one(p * q);
    prime_one(2 * p * q + 1);
    prime_one(p * q * 2);
}
// numbers that fool Fermat and Miller-Rabin tests
SUITE(pseudoprimes, 90, 90)
{
    static const u64 v[] = {561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461, 2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 1530787, 1987021, 2284453, 3116107, 5173601, 6787327, 25326001, 161304001, 960946321, 1157839381, 3215031751ull, 341, 91, 121, 703, 1891, 217, 781, 25, 325, 9, 4, 8, 27, 49, 6, 15, 1194649, 12327121, 3697278427ull, 5764643587ull, 4294967297ull, 8589934591ull};
    if (idx < std::size(v))
    {
        prime_one(v[idx]);
        mon::count_n("pseudoprimes", 1);
    }
}
// around machine-integer boundaries and powers of ten
SUITE(boundaries, 180, 400)
{
    static const u64 base[] = {1ull << 15, 1ull << 16, 1ull << 24, 1ull << 30, 1ull << 31, 1ull << 32, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
    if (idx < std::size(base) * 15)
    {
        const u64 n = base[idx / 15] + (idx % 15) - 7;
        prime_one(n);
    }
}
SUITE(random_mid, 400, 20000)
{
    const u64 hi = rng.of<u64>({1000000, 10000000, 1000000000});
    prime_one(rng.range(2, hi) | 1);
    if (rng.chance(1, 3))
        prime_one(some_prime(rng, 2, hi / 2));
}
SUITE(large_primes, 8, 160)
{
    const u64 hi = mon::thorough ? 200000000000ull : 12000000000ull;
    const u64 p = some_prime(rng, hi / 8, hi);
    prime_one(p);
    // product of two large primes: only the last divisors decide
    const u64 a = some_prime(rng, 60000, 90000), b = some_prime(rng, a, a + 2000);
    prime_one(a * b);
    prime_one(a * a);
}
// long numbers with a small factor are decided quickly
SUITE(long_composites, 600, 10000)
{
    const Big f = rng.of<int>({2, 3, 5, 7, 11, 13, 101, 997});
    const Big n = f * (big(gen_digits(rng, 60)) + 2);
    OP("is_prime long composite");
    EXPECT(!mk(n).is_prime(), "int-is-prime", n.str() << ".is_prime() is true");
    mon::evaluated();
    mon::count_n("composites", 1);
    mon::nontrivial(hash2("long", n.str(), ""));
}
SUITE(next_exhaustive, 300, 3000)
{
    for (long long n = (long long)idx * 20 - 20; n < (long long)idx * 20; ++n)
        next_one(n);
}
// starts and ends of maximal prime gaps, and steps of one around them
SUITE(next_gaps, 70, 70)
{
    static const long long g[] = {7, 23, 89, 113, 523, 887, 1129, 1327, 9551, 15683, 19609, 31397, 155921, 360653, 370261, 492113, 1349533};
    if (idx < std::size(g) * 4)
        next_one(g[idx / 4] + (long long)(idx % 4) - 1);
}
SUITE(next_random, 200, 4000)
{
    const long long hi = rng.of<long long>({100000, 1000000, 20000000});
    next_one(rng.range(0, hi));
}
SUITE(next_boundary, 24, 60)
{
    static const long long b[] = {1LL << 15, 1LL << 16, 1LL << 31, 1LL << 32, 99999, 999999, 9999999, 99999989, 999999937, 2147483629, 2147483647, 4294967291LL};
    if (idx < std::size(b) * 2)
        next_one(b[idx / 2] - (idx % 2));
}
