#include "fracx.hpp"

namespace
{
void check(const Fraction& f, const Q& q, const char* key, const std::string& ctx)
{
    EXPECT(f.denominator() > 0, std::string(key) + ":denominator", ctx << ": got " << fs(f));
    EXPECT((gcd128(f.numerator(), f.denominator()) == 1), std::string(key) + ":lowest-terms", ctx << ": got " << fs(f));
    EXPECT(same(f, q), key, ctx << ": got " << fs(f) << " want " << qs(q));
}
std::uint64_t hq(const char* op, const Q& a, const Q& b)
{
    std::uint64_t h = mon::hash_str(op);
    for (i128 v : {a.n, a.d, b.n, b.d})
        h = mon::hash_mix(h, std::uint64_t(v));
    return h;
}
Q construct(int n, int d, Fraction& out)
{
    OP("Fraction(n, d)");
    NOTE("Fraction(" << n << ", " << d << ")");
    out = Fraction(n, d);
    const Q q = mkq(n, d);
    check(out, q, "fraction-construct", "Fraction(" + std::to_string(n) + ", " + std::to_string(d) + ")");
    mon::evaluated();
    return q;
}
void unary(const Fraction& f)
{
    const Q q = q_of(f);
    const std::string ctx = fs(f);
    OP("Fraction unary");
    NOTE("unary " << ctx);
    check(+f, q, "fraction-plus", "+" + ctx);
    if (q.n != INT_MIN)
    {
        check(-f, {-q.n, q.d}, "fraction-neg", "-(" + ctx + ")");
        check(f.abs(), {q.n < 0 ? -q.n : q.n, q.d}, "fraction-abs", "abs " + ctx);
    }
    else
        check((-Fraction(INT_MAX)), {-INT_MAX, 1}, "fraction-neg", "-INT_MAX");
    const double v = double(f), w = double(q.n) / double(q.d); // both exact, so the quotient is the nearest double
    EXPECT(v == w, "fraction-double", ctx << " as double is not the nearest double but off by " << v - w);
    const Q up = mkq(q.n + q.d, q.d), dn = mkq(q.n - q.d, q.d);
    if (fits(up))
    {
        Fraction t = f;
        OP("Fraction ++");
        EXPECT(&++t == &t, "fraction-inc", "++ does not return the object");
        check(t, up, "fraction-inc", "++" + ctx);
    }
    if (fits(dn))
    {
        Fraction t = f;
        OP("Fraction --");
        EXPECT(&--t == &t, "fraction-dec", "-- does not return the object");
        check(t, dn, "fraction-dec", "--" + ctx);
    }
    mon::evaluated(6);
}
template <typename P, typename I>
void one(const char* opname, const char* key, const Fraction& x, const Fraction& y, const Q& want, P prod, I inplace)
{
    const std::string ctx = fs(x) + " " + opname + " " + fs(y);
    if (!fits(want))
    {
        mon::count_n("results out of int (not claimed)", 1);
        return;
    }
    mon::set_op(opname);
    NOTE(ctx);
    const Fraction r = prod(x, y);
    check(r, want, key, ctx);
    Fraction t = x;
    Fraction& ref = inplace(t, y);
    EXPECT(&ref == &t, std::string(key) + ":inplace", ctx << ": in-place form does not return the object");
    check(t, want, (std::string(key) + ":inplace").c_str(), "in-place " + ctx);
    mon::evaluated(2);
    mon::count_n(opname, 1);
    mon::nontrivial(hq(opname, q_of(x), q_of(y)));
    SAMPLE(opname, ctx << " = " << fs(r));
}
void binary(const Fraction& x, const Fraction& y)
{
    const Q a = q_of(x), b = q_of(y);
    one("+", "fraction-add", x, y, mkq(a.n * b.d + b.n * a.d, a.d * b.d), [](auto& p, auto& q) { return p + q; }, [](auto& p, auto& q) -> Fraction& { return p += q; });
    one("-", "fraction-sub", x, y, mkq(a.n * b.d - b.n * a.d, a.d * b.d), [](auto& p, auto& q) { return p - q; }, [](auto& p, auto& q) -> Fraction& { return p -= q; });
    one("*", "fraction-mul", x, y, mkq(a.n * b.n, a.d * b.d), [](auto& p, auto& q) { return p * q; }, [](auto& p, auto& q) -> Fraction& { return p *= q; });
    if (b.n != 0)
    {
        one("/", "fraction-div", x, y, mkq(a.n * b.d, a.d * b.n), [](auto& p, auto& q) { return p / q; }, [](auto& p, auto& q) -> Fraction& { return p /= q; });
        one("%", "fraction-mod", x, y, mkq((a.n * b.d) % (b.n * a.d), a.d * b.d), [](auto& p, auto& q) { return p % q; }, [](auto& p, auto& q) -> Fraction& { return p %= q; });
    }
    else
    {
        OP("Fraction / 0");
        Fraction t = x;
        EXPECT(mon::attempt([&] { mon::keep(x / y); }) == mon::Out::runtime_error, "fraction-div-zero", fs(x) << " / 0");
        EXPECT(mon::attempt([&] { t /= y; }) == mon::Out::runtime_error, "fraction-div-zero", fs(x) << " /= 0");
        check(t, a, "fraction-div-zero-intact", fs(x) + " /= 0");
        OP("Fraction % 0");
        EXPECT(mon::attempt([&] { mon::keep(x % y); }) == mon::Out::runtime_error, "fraction-mod-zero", fs(x) << " % 0");
        EXPECT(mon::attempt([&] { t %= y; }) == mon::Out::runtime_error, "fraction-mod-zero", fs(x) << " %= 0");
        check(t, a, "fraction-mod-zero-intact", fs(x) + " %= 0");
        mon::evaluated(4);
    }
    EXPECT(same(x, a) && same(y, b), "fraction-operand-changed", "operands became " << fs(x) << ", " << fs(y));
}
void gcdlcm(const Fraction& x, const Fraction& y)
{
    const Q a = q_of(x), b = q_of(y);
    auto ok = [](i128 v) { return v >= -INT_MAX && v <= INT_MAX; };
    if (!(ok(a.n) && ok(b.n) && ok(a.n * b.n) && ok(a.n * b.d) && ok(a.d * b.n) && ok(a.d * b.d)))
    {
        mon::count_n("gcd operands out of domain (not claimed)", 1);
        return;
    }
    // gcd(a/b, c/d) = gcd(ad, cb) / bd
    const Q g = mkq(gcd128(a.n * b.d, b.n * a.d), a.d * b.d);
    OP("Fraction::gcd");
    NOTE("gcd " << fs(x) << " " << fs(y));
    check(Fraction::gcd(x, y), g, "fraction-gcd", "gcd(" + fs(x) + ", " + fs(y) + ")");
    OP("Fraction::lcm");
    Q l{0, 1};
    if (a.n != 0 && b.n != 0)
    {
        i128 p = a.n * b.n;
        p = p < 0 ? -p : p;
        l = mkq(p * g.d, a.d * b.d * g.n);
    }
    check(Fraction::lcm(x, y), l, "fraction-lcm", "lcm(" + fs(x) + ", " + fs(y) + ")");
    mon::evaluated(2);
    if (a.n && b.n)
        mon::nontrivial(hq("gcd", a, b));
    SAMPLE("gcd", "gcd/lcm(" << fs(x) << ", " << fs(y) << ") = " << qs(g) << " " << qs(l));
}
void aliased(const Fraction& x)
{
    const Q a = q_of(x);
    const std::string ctx = fs(x);
    auto run = [&](const char* n, const Q& want, auto f)
    {
        if (!fits(want))
            return;
        Fraction t = x;
        mon::set_op(n);
        f(t);
        check(t, want, (std::string("fraction-self") + n).c_str(), "a " + std::string(n) + " a, a=" + ctx);
        mon::evaluated();
    };
    run("+=", mkq(2 * a.n, a.d), [](Fraction& t) { t += t; });
    run("-=", {0, 1}, [](Fraction& t) { t -= t; });
    run("*=", mkq(a.n * a.n, a.d * a.d), [](Fraction& t) { t *= t; });
    if (a.n != 0)
    {
        run("/=", {1, 1}, [](Fraction& t) { t /= t; });
        run("%=", {0, 1}, [](Fraction& t) { t %= t; });
    }
}
} // namespace

SUITE(small_exhaustive, 625, 6561)
{
    const int R = mon::thorough ? 40 : 12, W = 2 * R + 1;
    const int n = int(idx % W) - R, d = int(idx / W) - R;
    if (d == 0)
    {
        OP("Fraction(n, 0)");
        EXPECT(mon::attempt([&] { mon::keep(Fraction(n, 0)); }) == mon::Out::runtime_error, "fraction-zero-den", "Fraction(" << n << ", 0)");
        mon::evaluated();
        return;
    }
    Fraction x, y;
    construct(n, d, x);
    unary(x);
    aliased(x);
    const int S = mon::thorough ? 14 : 7;
    for (int c = -S; c <= S; ++c)
        for (int e = 1; e <= S; ++e)
        {
            if (std::gcd(c, e) != 1)
                continue;
            y = Fraction(c, e);
            binary(x, y);
            gcdlcm(x, y);
        }
}
SUITE(random_pairs, 60000, 2000000)
{
    const auto [n, d] = gen_raw(rng);
    auto [m, e] = gen_raw(rng);
    Fraction x, y;
    const Q q = construct(n, d, x);
    if (rng.chance(1, 3)) // related denominators, so that results stay small
    {
        e = rng.chance(1, 2) ? int(q.d) : int(q.d / std::max<i128>(1, rng.range(1, 6)));
        if (e == 0)
            e = 1;
        if (rng.chance(1, 3))
            m = rng.chance(1, 2) ? int(q.n == INT_MIN ? q.n + 1 : -q.n) : int(q.n);
        if (!fits(mkq(m, e)))
            m = 1;
    }
    else if (rng.chance(1, 5) && q.n != 0 && q.n != INT_MIN) // near the reciprocal
    {
        m = int(q.d);
        e = int(q.n);
    }
    construct(m, e, y);
    binary(x, y);
    gcdlcm(x, y);
    if (rng.chance(1, 4))
    {
        unary(x);
        aliased(x);
    }
}
// operands inside the domain of gcd and lcm, beyond the tiny ones
SUITE(gcd_domain, 20000, 500000)
{
    const int hi = rng.of<int>({50, 1000, 46340});
    Fraction x(rng.range(-hi, hi), rng.range(1, hi)), y(rng.range(-hi, hi), rng.range(1, hi));
    if (rng.chance(1, 3))
        y = Fraction(x.numerator(), int(rng.range(1, hi)));
    gcdlcm(x, y);
    gcdlcm(x, x);
    binary(x, y);
}
SUITE(machine_extremes, 400, 3000)
{
    static const int v[] = {INT_MIN, INT_MIN + 1, INT_MIN + 2, INT_MIN / 2, -46341, -46340, -65536, -2, -1, 0, 1, 2, 3, 46340, 46341, 65536, INT_MAX / 2, INT_MAX / 2 + 1, INT_MAX - 2, INT_MAX - 1, INT_MAX};
    constexpr int K = std::size(v);
    if (idx >= K * K)
        return;
    const int n = v[idx / K], d = v[idx % K];
    if (d == 0)
    {
        EXPECT(mon::attempt([&] { mon::keep(Fraction(n, 0)); }) == mon::Out::runtime_error, "fraction-zero-den", "Fraction(" << n << ", 0)");
        return;
    }
    if (!fits(mkq(n, d)))
        return;
    Fraction x, y;
    construct(n, d, x);
    unary(x);
    aliased(x);
    for (int m : v)
        for (int e : v)
            if (e != 0 && fits(mkq(m, e)))
            {
                construct(m, e, y);
                binary(x, y);
            }
}
SUITE(chains, 2500, 60000)
{
    Fraction f = Fraction(rng.range(-20, 20), rng.range(1, 20));
    Q q = q_of(f);
    std::uint64_t h = idx;
    for (int st = 0; st < 50; ++st)
    {
        const Fraction g(rng.range(-9, 9), rng.range(1, 9));
        const Q b = q_of(g);
        const int op = rng.range(0, 7);
        Q w = q;
        NOTE("step " << st << " op " << op << " f=" << fs(f) << " g=" << fs(g));
        switch (op)
        {
            case 0: w = mkq(q.n * b.d + b.n * q.d, q.d * b.d); break;
            case 1: w = mkq(q.n * b.d - b.n * q.d, q.d * b.d); break;
            case 2: w = mkq(q.n * b.n, q.d * b.d); break;
            case 3:
                if (b.n == 0) continue;
                w = mkq(q.n * b.d, q.d * b.n);
                break;
            case 4:
                if (b.n == 0) continue;
                w = mkq((q.n * b.d) % (b.n * q.d), q.d * b.d);
                break;
            case 5: w = mkq(q.n + q.d, q.d); break;
            case 6: w = mkq(q.n - q.d, q.d); break;
            case 7: w = {-q.n, q.d}; break;
        }
        if (!fits(w))
            continue;
        OP("Fraction chain");
        switch (op)
        {
            case 0: f += g; break;
            case 1: f -= g; break;
            case 2: f *= g; break;
            case 3: f /= g; break;
            case 4: f %= g; break;
            case 5: ++f; break;
            case 6: --f; break;
            case 7: f = -f; break;
        }
        q = w;
        check(f, q, "fraction-chain", "step " + std::to_string(st) + " op " + std::to_string(op));
        mon::evaluated();
        h = mon::hash_mix(h, std::uint64_t(q.n) * 1000003 + std::uint64_t(q.d));
        mon::nontrivial(h);
    }
}
SUITE(int_operands, 3000, 60000)
{
    Fraction x;
    const auto [n, d] = gen_raw(rng);
    const Q q = construct(n, d, x);
    const int k = rng.range(-1000, 1000);
    const Fraction K(k);
    check(K, {k, 1}, "fraction-from-int", "Fraction(" + std::to_string(k) + ")");
    check(Fraction(), {0, 1}, "fraction-default", "Fraction()");
    Fraction t = x;
    const Q w = mkq(q.n + k * q.d, q.d);
    if (fits(w))
    {
        OP("Fraction += int");
        t += k;
        check(t, w, "fraction-add-int", fs(x) + " += " + std::to_string(k));
    }
    const Q z = mkq(q.n * k, q.d);
    if (fits(z))
    {
        t = x;
        OP("Fraction *= int");
        t *= k;
        check(t, z, "fraction-mul-int", fs(x) + " *= " + std::to_string(k));
    }
    mon::evaluated(2);
}
