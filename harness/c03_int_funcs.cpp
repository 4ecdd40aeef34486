#include "intx.hpp"

namespace
{
Big isqrt(const Big& n)
{
    return boost::multiprecision::sqrt(n); // floor
}
void sqrt_one(const Big& n)
{
    const Int x = mk(n);
    OP("Int::sqrt");
    NOTE("sqrt " << n.str());
    const Int r = Int::sqrt(x);
    check_int(r, isqrt(n), "int-sqrt", "sqrt(" + full(n.str()) + ")");
    // the definition itself
    const Big R = big(text(r));
    EXPECT(R >= 0 && R * R <= n && (R + 1) * (R + 1) > n, "int-sqrt-def", "sqrt(" << full(n.str()) << ") = " << text(r));
    EXPECT(text(x) == n.str(), "int-operand-changed", "sqrt changed its argument");
    mon::evaluated();
    if (n > 3)
        mon::nontrivial(hash2("sqrt", n.str(), ""));
    SAMPLE("sqrt", "sqrt(" << brief(n.str()) << ") = " << brief(text(r)));
}
Big bpow(Big b, int e)
{
    Big r = 1;
    for (int i = 0; i < e; ++i)
        r *= b;
    return r;
}
void pow_one(const Big& b, int e)
{
    OP("Int::pow");
    NOTE("pow " << b.str() << " " << e);
    const Int B = mk(b), E = e;
    const std::string ctx = "pow(" + full(b.str()) + ", " + std::to_string(e) + ")";
    if (e < 0 && b == 0)
    {
        const auto o = mon::attempt([&] { mon::keep(Int::pow(B, E)); });
        EXPECT(o == mon::Out::runtime_error, "int-pow-domain", ctx << ": " << name(o));
        return;
    }
    Big want;
    if (e >= 0)
        want = bpow(b, e);
    else
        want = b == 1 ? Big(1) : b == -1 ? Big(e % 2 ? -1 : 1) : Big(0);
    check_int(Int::pow(B, E), want, "int-pow", ctx);
    mon::evaluated();
    if (b != 0 && b != 1 && e > 1)
        mon::nontrivial(hash2("pow", b.str(), std::to_string(e)));
    SAMPLE("pow", ctx << " = " << brief(want.str()));
}
// truncated remainder of b**e by m, without computing the whole power
Big modpow(const Big& b, const Big& e, const Big& m)
{
    Big M = m < 0 ? Big(-m) : m, B = b < 0 ? Big(-b) : b, r = 1 % M, x = B % M, n = e;
    while (n != 0)
    {
        if ((n & 1) != 0)
            r = r * x % M;
        x = x * x % M;
        n >>= 1;
    }
    return (b < 0 && (e & 1) != 0) ? Big(-r) : r;
}
void modpow_one(const Big& b, const Big& e, const Big& m)
{
    OP("Int::pow mod");
    NOTE("modpow " << b.str() << " " << e.str() << " " << m.str());
    const std::string ctx = "pow(" + full(b.str()) + ", " + full(e.str()) + ", " + full(m.str()) + ")";
    check_int(Int::pow(mk(b), mk(e), mk(m)), modpow(b, e, m), "int-modpow", ctx);
    mon::evaluated();
    if (b != 0 && e > 1)
        mon::nontrivial(hash2("modpow", b.str() + "^" + e.str(), m.str()));
    SAMPLE("modpow", ctx << " = " << brief(modpow(b, e, m).str()));
}
void log_one(const Big& n, const Big& b)
{
    OP("Int::log");
    NOTE("log " << n.str() << " " << b.str());
    Big p = b;
    int k = 0;
    while (p <= n)
    {
        p *= b;
        ++k;
    }
    const std::string ctx = "log(" + full(n.str()) + ", " + full(b.str()) + ")";
    check_int(Int::log(mk(n), mk(b)), k, "int-log", ctx);
    mon::evaluated();
    if (k > 0)
        mon::nontrivial(hash2("log", n.str(), b.str()));
    SAMPLE("log", ctx << " = " << k);
}
void gcd_one(const Big& a, const Big& b)
{
    OP("Int::gcd");
    NOTE("gcd/lcm " << a.str() << " " << b.str());
    const Int x = mk(a), y = mk(b);
    const Big g = boost::multiprecision::gcd(a, b);
    const Big ga = g < 0 ? Big(-g) : g;
    const std::string ctx = full(a.str()) + ", " + full(b.str());
    check_int(Int::gcd(x, y), ga, "int-gcd", "gcd(" + ctx + ")");
    OP("Int::lcm");
    Big l = 0;
    if (a != 0 && b != 0)
    {
        l = a / ga * b;
        if (l < 0)
            l = -l;
    }
    check_int(Int::lcm(x, y), l, "int-lcm", "lcm(" + ctx + ")");
    EXPECT(text(x) == a.str() && text(y) == b.str(), "int-operand-changed", "gcd/lcm changed an argument");
    mon::evaluated(2);
    if (a != 0 && b != 0)
        mon::nontrivial(hash2("gcd", a.str(), b.str()));
    SAMPLE("gcd", "gcd/lcm(" << ctx << ") = " << brief(ga.str()) << " / " << brief(l.str()));
}
template <typename F>
void domain(const char* key, const std::string& ctx, F f)
{
    const auto o = mon::attempt(f);
    EXPECT(o == mon::Out::runtime_error, key, ctx << ": " << name(o) << " instead of an error");
    mon::evaluated();
}
} // namespace

SUITE(sqrt_small, 400, 4000)
{
    for (int i = 0; i < 50; ++i)
        sqrt_one(Big(idx * 50 + i));
}
SUITE(sqrt_near_squares, 2500, 60000)
{
    Big k = idx < 100 ? (idx % 2 ? big(pow10s(idx / 2)) : big(pow10s(idx / 2)) - 1) : big(gen_digits(rng, rng.chance(1, 8) ? 120 : 40));
    for (int d : {-2, -1, 0, 1, 2})
        if (k * k + d >= 0)
            sqrt_one(k * k + d);
    sqrt_one(k * (k + 1));
    sqrt_one(k * (k + 1) + 1);
    sqrt_one(k * k + 2 * k);
}
SUITE(sqrt_random, 2500, 60000)
{
    sqrt_one(big(gen_digits(rng, rng.chance(1, 10) ? 200 : 60)));
    // powers of ten and of two around every length
    if (idx < 300)
    {
        const Big p = big(pow10s(idx / 2));
        sqrt_one(idx % 2 ? p : Big(p - 1));
        sqrt_one(Big(1) << int(idx));
    }
}
SUITE(pow_small, 61, 201)
{
    const int R = mon::thorough ? 100 : 30;
    for (int e = -5; e <= (mon::thorough ? 70 : 34); ++e)
        pow_one(Big(int(idx) - R), e);
}
SUITE(pow_random, 700, 20000)
{
    const Big b = big(gen_int(rng, rng.chance(1, 5) ? 40 : 8));
    pow_one(b, int(rng.range(0, 60) / std::max<std::size_t>(1, b.str().size() / 6)));
    pow_one(b, -int(rng.range(1, 1000)));
    // power laws on the library itself
    const int e1 = rng.range(0, 9), e2 = rng.range(0, 9);
    const Int B = mk(b);
    OP("Int::pow law");
    EXPECT(Int::pow(B, e1 + e2) == Int::pow(B, e1) * Int::pow(B, e2), "int-pow-law", "b=" << b.str() << " " << e1 << "+" << e2);
}
SUITE(pow_long_exponent, 60, 600)
{
    // exponents around powers of two, small bases
    const Big b = rng.of<int>({2, -2, 3, -3, 5, 7, 10, -10});
    const int k = rng.range(4, 9);
    pow_one(b, (1 << k) + int(rng.range(-1, 1)));
    // bases 0, 1, -1 with huge exponents
    for (int base : {0, 1, -1})
    {
        const Big e = big(gen_digits(rng, 30));
        const Big want = base == 0 ? Big(e == 0 ? 1 : 0) : base == 1 ? Big(1) : Big((e & 1) != 0 ? -1 : 1);
        OP("Int::pow unit base");
        check_int(Int::pow(base, mk(e)), want, "int-pow", std::to_string(base) + "**" + e.str());
        if (base != 0)
            check_int(Int::pow(base, -mk(e)), want, "int-pow", std::to_string(base) + "**-" + e.str());
    }
}
SUITE(modpow_small, 27, 61)
{
    const int R = mon::thorough ? 30 : 13;
    const int b = int(idx) - R;
    for (int e = 0; e <= (mon::thorough ? 40 : 18); ++e)
        for (int m = -R; m <= R; ++m)
        {
            if (m != 0)
                modpow_one(b, e, m);
        }
    // negative exponents with a modulus: the truncated power is 0, or +-1 for unit bases
    for (int e = -4; e < 0; ++e)
        for (int m = -5; m <= 5; ++m)
        {
            if (b == 0)
            {
                domain("int-pow-domain", "pow(0, negative, m)", [&] { mon::keep(Int::pow(b, e, m)); });
                continue;
            }
            const Big p = b == 1 ? Big(1) : b == -1 ? Big(e % 2 ? -1 : 1) : Big(0);
            OP("Int::pow negative mod");
            check_int(Int::pow(b, e, m), m == 0 ? p : Big(p % m), "int-modpow-neg", std::to_string(b) + "**" + std::to_string(e) + " mod " + std::to_string(m));
        }
}
SUITE(modpow_random, 1200, 30000)
{
    const bool small = rng.chance(2, 3);
    Big b = big(gen_int(rng, small ? 12 : 30)), e = big(gen_digits(rng, small ? 4 : 9)), m = big(gen_int(rng, small ? 12 : 25));
    if (m == 0)
        m = 1;
    if (rng.chance(1, 8))
        b = m * rng.range(-3, 3) + rng.range(-1, 1);
    if (rng.chance(1, 16))
        m = rng.of<int>({1, -1, 2, -2, 10, -10});
    modpow_one(b, e, m);
}
// exponents around and beyond the machine words
SUITE(modpow_long_exponent, 160, 4000)
{
    Big e = Big(1) << int(idx < 130 ? idx : rng.range(0, 220));
    e += rng.range(-2, 20);
    if (idx % 3 == 1)
        e = big(gen_digits(rng, 70));
    if (e < 0)
        e = 0;
    Big m = big(gen_int(rng, 8));
    if (m == 0)
        m = 1000003;
    modpow_one(rng.chance(1, 3) ? Big(rng.range(-3, 3)) : big(gen_int(rng, 10)), e, m);
}
// mod of a value that is not reduced: explicit zero modulus means none
SUITE(pow_zero_mod, 200, 2000)
{
    const int b = rng.range(-9, 9), e = rng.range(0, 20);
    OP("Int::pow mod 0");
    check_int(Int::pow(b, e, 0), bpow(b, e), "int-pow-mod0", std::to_string(b) + "**" + std::to_string(e) + " mod 0");
    mon::evaluated();
}
SUITE(log_near_powers, 700, 12000)
{
    const Big b = idx < 120 ? Big(idx + 2) : big(gen_digits(rng, rng.chance(1, 4) ? 20 : 5)) + 2;
    const int maxk = std::max<int>(1, 60 / b.str().size());
    const int k = rng.range(0, maxk);
    const Big p = bpow(b, k);
    for (int d : {-1, 0, 1})
        if (p + d >= 1)
            log_one(p + d, b);
    log_one(big(gen_digits(rng, 40)) + 1, b);
    log_one(p, 10);
    if (idx < 60)
    {
        log_one(big(pow10s(idx)), 10);
        log_one(big(pow10s(idx + 1)) - 1, 10);
        log_one(Big(1) << int(idx * 3), 2);
        log_one((Big(1) << int(idx * 3 + 1)) - 1, 2);
    }
}
SUITE(log_small, 100, 600)
{
    for (int b = 2; b <= 12; ++b)
        for (int i = 0; i < 5; ++i)
            log_one(Big(1 + idx * 5 + i), b);
}
SUITE(factorials, 130, 500)
{
    Big f = 1;
    for (std::uint64_t i = 2; i <= idx; ++i)
        f *= i;
    OP("Int::factorial");
    const Int n = int(idx);
    check_int(n.factorial(), f, "int-factorial", std::to_string(idx) + "!");
    EXPECT(text(n) == std::to_string(idx), "int-operand-changed", "factorial changed its object");
    mon::evaluated();
    mon::nontrivial(hash2("fact", std::to_string(idx), ""));
}
SUITE(gcd_small, 121, 401)
{
    const int R = mon::thorough ? 200 : 60;
    for (int b = -R; b <= R; ++b)
        gcd_one(int(idx) - R, b);
}
SUITE(gcd_random, 2500, 60000)
{
    const int ml = rng.chance(1, 6) ? 60 : 18;
    Big a = big(gen_int(rng, ml)), b = rng.chance(1, 3) ? big(related(rng, a.str(), ml)) : big(gen_int(rng, ml));
    if (rng.chance(1, 2))
    {
        const Big c = big(gen_int(rng, ml / 2));
        a *= c, b *= c;
    }
    if (idx < 90) // consecutive Fibonacci numbers: the longest Euclid runs
    {
        Big f = 1, g = 1;
        for (std::uint64_t i = 0; i < idx; ++i)
        {
            std::swap(f, g);
            g += f;
        }
        a = f, b = g;
    }
    gcd_one(a, b);
}
SUITE(gcd_aliased, 200, 2000)
{
    const Int x = mk(gen_int(rng, 30));
    OP("gcd(a, a)");
    check_int(Int::gcd(x, x), big(text(x.abs())), "int-gcd", "gcd(a, a), a=" + text(x));
    check_int(Int::lcm(x, x), big(text(x.abs())), "int-lcm", "lcm(a, a), a=" + text(x));
    Int y = x;
    y = Int::gcd(y, y);
    check_int(y, big(text(x.abs())), "int-gcd", "a = gcd(a, a), a=" + text(x));
    OP("pow(a, a, a)");
    const int s = rng.range(2, 30);
    Int z = s;
    z = Int::pow(z, z, z);
    check_int(z, 0, "int-modpow", "pow(a, a, a), a=" + std::to_string(s));
    mon::evaluated(4);
}
SUITE(domain_errors, 300, 3000)
{
    const std::string n = gen_digits(rng, 25);
    const Int pos = mk(n == "0" ? "1" : n), neg = -pos;
    domain("int-sqrt-domain", "sqrt(" + text(neg) + ")", [&] { OP("sqrt neg"); mon::keep(Int::sqrt(neg)); });
    domain("int-factorial-domain", "factorial of " + text(neg), [&] { OP("factorial neg"); mon::keep(neg.factorial()); });
    domain("int-log-domain", "log(0, b)", [&] { OP("log 0"); mon::keep(Int::log(0, pos + 1)); });
    domain("int-log-domain", "log(" + text(neg) + ", b)", [&] { OP("log neg"); mon::keep(Int::log(neg, pos + 1)); });
    for (const Int& b : {neg, Int(0), Int(1), neg - 1})
        domain("int-log-domain", "log(n, " + text(b) + ")", [&] { OP("log base"); mon::keep(Int::log(pos, b)); });
    domain("int-pow-domain", "pow(0, " + text(neg) + ")", [&] { OP("pow 0 neg"); mon::keep(Int::pow(0, neg)); });
    domain("int-log-domain", "log(0, 10)", [&] { OP("log 0"); mon::keep(Int::log(0, 10)); });
    domain("int-log-domain", "log(-n, 10)", [&] { OP("log neg"); mon::keep(Int::log(neg, 10)); });
}
// arguments far beyond the usual
SUITE(long_arguments, 64, 1000)
{
    auto digits = [&](int n)
    {
        std::string s = gen_digits(rng, 1);
        s = rng.of<std::string>({"1", "9", "4", "2"});
        const int kind = rng.range(0, 3);
        while (int(s.size()) < n)
            s += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
        return big(s);
    };
    switch (idx % 8)
    {
        case 0:
        {
            const Big k = digits(rng.range(150, 420));
            for (int d : {-1, 0, 1})
                sqrt_one(k * k + d);
            break;
        }
        case 1: sqrt_one(digits(rng.range(300, 900))); break;
        case 2: pow_one(digits(rng.range(30, 200)), rng.range(2, 9)); break;
        case 3: pow_one(rng.range(-12, 12), rng.range(400, 1500)); break;
        case 4:
        {
            const int b = rng.range(2, 99), k = rng.range(100, 260);
            const Big p = bpow(Big(b), k);
            for (int d : {-1, 0, 1})
                log_one(p + d, b);
            const int n = rng.range(200, 3000);
            log_one(digits(n), 10);
            log_one(digits(n), digits(rng.range(n / 3, n + 1)));
            break;
        }
        case 5:
        {
            const int n = rng.range(150, mon::thorough ? 900 : 450);
            Big f = 1;
            for (int i = 2; i <= n; ++i)
                f *= i;
            OP("Int::factorial");
            check_int(Int(n).factorial(), f, "int-factorial", std::to_string(n) + "!");
            mon::evaluated();
            break;
        }
        case 6:
        {
            const Big c = digits(rng.range(1, 90));
            gcd_one(digits(rng.range(20, 90)) * c, -digits(rng.range(20, 90)) * c);
            break;
        }
        default: modpow_one(digits(rng.range(1, 120)), digits(rng.range(1, 14)), digits(rng.range(20, 70)));
    }
}
