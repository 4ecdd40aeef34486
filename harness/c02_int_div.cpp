#include "intx.hpp"

namespace
{
void div_pair(const std::string& sa, const std::string& sb)
{
    const Big a = big(sa), b = big(sb);
    const Int x = mk(sa), y = mk(sb);
    const std::string ctx = "a=" + full(sa) + " b=" + full(sb);
    NOTE(ctx);
    if (b == 0)
    {
        Int t = x;
        OP("Int / 0");
        auto o1 = mon::attempt([&] { mon::keep(x / y); });
        auto o2 = mon::attempt([&] { t /= y; });
        EXPECT(o1 == mon::Out::runtime_error && o2 == mon::Out::runtime_error, "int-div-zero", ctx << ": a / 0 gave " << name(o1) << ", " << name(o2));
        check_int(t, a, "int-div-zero-intact", "after a /= 0, " + ctx);
        OP("Int % 0");
        auto o3 = mon::attempt([&] { mon::keep(x % y); });
        auto o4 = mon::attempt([&] { t %= y; });
        EXPECT(o3 == mon::Out::runtime_error && o4 == mon::Out::runtime_error, "int-mod-zero", ctx << ": a % 0 gave " << name(o3) << ", " << name(o4));
        check_int(t, a, "int-mod-zero-intact", "after a %= 0, " + ctx);
        mon::evaluated(4);
        return;
    }
    OP("Int /");
    const Int q = x / y;
    OP("Int %");
    const Int r = x % y;
    const Big wq = a / b, wr = a % b; // cpp_int truncates
    check_int(q, wq, "int-div", "a / b, " + ctx);
    check_int(r, wr, "int-mod", "a % b, " + ctx);
    OP("Int identity");
    EXPECT(x == q * y + r, "int-div-identity", ctx << ": (a / b) * b + a % b = " << text(q * y + r));
    EXPECT(r.abs() < y.abs(), "int-mod-range", ctx << ": |a % b| = " << text(r.abs()));
    {
        OP("Int /=");
        Int t = x;
        Int& ref = (t /= y);
        EXPECT(&ref == &t, "int-div-inplace", "a /= b does not return a");
        check_int(t, wq, "int-div-inplace", "a /= b, " + ctx);
    }
    {
        OP("Int %=");
        Int t = x;
        Int& ref = (t %= y);
        EXPECT(&ref == &t, "int-mod-inplace", "a %= b does not return a");
        check_int(t, wr, "int-mod-inplace", "a %= b, " + ctx);
    }
    EXPECT(text(x) == a.str() && text(y) == b.str(), "int-operand-changed", ctx << ": operands became " << text(x) << ", " << text(y));
    mon::evaluated(4);
    if (wq != 0 && b != 1 && b != -1)
        mon::nontrivial(hash2("div", sa, sb));
    SAMPLE("div", "a=" << brief(sa) << " b=" << brief(sb) << " -> q=" << brief(text(q)) << " r=" << brief(text(r)));
}
void self(const std::string& sa)
{
    const Big a = big(sa);
    if (a == 0)
        return;
    Int t = mk(sa);
    OP("Int /= self");
    t /= t;
    check_int(t, 1, "int-self-div", "a /= a, a=" + full(sa));
    t = mk(sa);
    OP("Int %= self");
    t %= t;
    check_int(t, 0, "int-self-mod", "a %= a, a=" + full(sa));
    t = mk(sa);
    OP("Int / self");
    check_int(t / t, 1, "int-self-div", "a / a, a=" + full(sa));
    check_int(t % t, 0, "int-self-mod", "a % a, a=" + full(sa));
    mon::evaluated(4);
}
} // namespace

SUITE(small_pairs, 241, 1201)
{
    const int R = mon::thorough ? 600 : 120;
    const int a = int(idx) - R;
    self(std::to_string(a));
    for (int b = -R; b <= R; ++b)
        div_pair(std::to_string(a), std::to_string(b));
}
SUITE(boundary_pairs, 400, 400)
{
    const auto& v = boundary_ints(mon::thorough ? 45 : 22);
    if (idx >= v.size())
        return;
    self(v[idx]);
    for (const auto& b : v)
        div_pair(v[idx], b);
}
SUITE(random_pairs, 12000, 500000)
{
    const int maxlen = rng.chance(1, 10) ? 250 : 60;
    std::string a = gen_int(rng, maxlen);
    std::string b = rng.chance(1, 3) ? related(rng, a, maxlen) : gen_int(rng, rng.chance(1, 2) ? maxlen : 6);
    if (rng.chance(1, 4))
        std::swap(a, b);
    div_pair(a, b);
    if (rng.chance(1, 6))
        self(a);
}
// dividends built from a quotient and a remainder with chosen shapes
SUITE(constructed, 16000, 600000)
{
    const int maxlen = rng.chance(1, 10) ? 150 : 40;
    Big b = big(gen_digits(rng, maxlen)), q = big(gen_digits(rng, maxlen));
    if (b == 0)
        b = 7;
    Big r;
    switch (rng.range(0, 4))
    {
        case 0: r = 0; break;
        case 1: r = b - 1; break;
        case 2: r = 1; break;
        case 3: r = b / 2; break;
        default: r = big(gen_digits(rng, maxlen));
    }
    r %= b;
    Big a = q * b + r;
    if (rng.chance(1, 2))
        a = -a;
    if (rng.chance(1, 2))
        b = -b;
    div_pair(a.str(), b.str());
}
// every quotient digit 0..9 at every position, remainders at both ends
SUITE(digit_quotients, 400, 4000)
{
    const Big b = idx < 40 ? Big(idx + 1) : big(gen_digits(rng, 30)) + 1;
    for (int pos = 0; pos < 6; ++pos)
        for (int d = 1; d <= 9; ++d)
            for (int e : {-1, 0, 1})
            {
                const Big a = b * d * big(pow10s(pos)) + e;
                div_pair(a.str(), b.str());
                if (e == 0)
                    div_pair(Big(-a).str(), b.str());
            }
}
SUITE(mixed_int, 2000, 30000)
{
    const std::string a = gen_int(rng, 30);
    int k = rng.chance(1, 3) ? rng.of<int>({INT_MIN, INT_MAX, INT_MIN + 1, 1, -1, 10, 1000000000}) : int(rng.range(INT_MIN, INT_MAX) >> rng.range(0, 30));
    const Int x = mk(a);
    const Big A = big(a), K = k;
    const std::string ctx = "a=" + a + " k=" + std::to_string(k);
    if (k != 0)
    {
        OP("Int op int");
        check_int(x / k, A / K, "int-div-int", ctx);
        check_int(x % k, A % K, "int-mod-int", ctx);
    }
    if (A != 0)
    {
        check_int(Int(k) / x, K / A, "int-int-div", ctx);
        check_int(Int(k) % x, K % A, "int-int-mod", ctx);
    }
    mon::evaluated(4);
    mon::nontrivial(hash2("mixed", a, std::to_string(k)));
}
SUITE(chains, 1200, 40000)
{
    Big m = big(gen_int(rng, 60));
    Int v = mk(m);
    std::uint64_t h = idx;
    for (int st = 0; st < 40; ++st)
    {
        std::string s = rng.chance(1, 2) ? related(rng, m.str(), 60) : gen_int(rng, 12);
        const Big b = big(s);
        const Int y = mk(s);
        const int op = rng.range(0, 6);
        NOTE("step " << st << " op " << op << " v=" << full(m.str()) << " b=" << s);
        if (b == 0)
        {
            OP("chain zero divisor");
            const auto o = mon::attempt([&] { op % 2 ? v /= y : v %= y; });
            EXPECT(o == mon::Out::runtime_error, "int-div-zero", "chain: " << name(o));
        }
        else if (op <= 1)
        {
            OP("chain /=");
            v /= y, m /= b;
        }
        else if (op <= 3)
        {
            OP("chain %=");
            v %= y, m %= b;
        }
        else if (op == 4)
        {
            OP("chain divmod recompose");
            const Int q = v / y;
            v %= y;
            v += q * y;
        }
        else if (op == 5)
        {
            OP("chain *=");
            v *= y, m *= b;
        }
        else
        {
            OP("chain +=");
            v += y, m += b;
        }
        check_int(v, m, "int-div-chain", "step " + std::to_string(st) + " op " + std::to_string(op) + " b=" + full(s));
        if (m.str().size() > 200 || m == 0)
        {
            m = big(gen_int(rng, 60));
            v = mk(m);
        }
        mon::evaluated();
        h = mon::hash_mix(h, mon::hash_str(m.str()));
        mon::nontrivial(h);
    }
}
SUITE(long_operands, 120, 2000)
{
    Big a = big(gen_digits(rng, 1) + std::string()), b;
    auto mkd = [&](int n)
    {
        std::string s = rng.of<std::string>({"1", "9", "5"});
        const int kind = rng.range(0, 3);
        while (int(s.size()) < n)
            s += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
        return sgn(rng, s);
    };
    const int la = idx % 8 == 0 ? rng.range(1000, 4200) : rng.range(200, 900), lb = idx % 16 == 0 ? la - rng.range(0, 300) : rng.range(1, 900);
    div_pair(mkd(la), mkd(lb));
    SAMPLE("long", la << " digits by " << lb << " digits");
}
// every number of digits up to 300 (1200 in thorough), by as many, one less, one digit, half as many and one more
SUITE(every_length, 150, 600)
{
    for (int n = 2 * int(idx) + 1; n <= 2 * int(idx) + 2; ++n)
    {
        auto mkd = [&](int len)
        {
            std::string s = rng.of<std::string>({"1", "9", "5"});
            const int kind = rng.range(0, 3);
            while (int(s.size()) < len)
                s += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
            return sgn(rng, s);
        };
        const std::string a = mkd(n);
        self(a);
        for (int len : {n, std::max(1, n - 1), 1, n / 2 + 1, n + 1})
            div_pair(a, mkd(len));
        div_pair("1" + std::string(n, '0'), mkd(n / 3 + 1));
        const Big b = big(mkd(n / 2 + 1)), q = big(mkd(n / 2 + 1));
        div_pair(Big(b * q).str(), b.str());
        div_pair(Big(b * q - 1).str(), b.str());
    }
}
