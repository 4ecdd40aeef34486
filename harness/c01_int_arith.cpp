#include "intx.hpp"

namespace
{
// all arithmetic of one pair, producing and in-place
void pair_ops(const std::string& sa, const std::string& sb, bool full_check)
{
    const Big a = big(sa), b = big(sb);
    const Int x = mk(sa), y = mk(sb);
    const std::string ctx = "a=" + full(sa) + " b=" + full(sb);
    NOTE(ctx);
    struct R
    {
        const char* n;
        Int v;
        Big w;
    };
    OP("Int +");
    const Int s = x + y;
    OP("Int -");
    const Int d = x - y;
    OP("Int *");
    const Int p = x * y;
    const Big bs = a + b, bd = a - b, bp = a * b;
    check_int(s, bs, "int-add", "a + b, " + ctx);
    check_int(d, bd, "int-sub", "a - b, " + ctx);
    check_int(p, bp, "int-mul", "a * b, " + ctx);
    {
        OP("Int +=");
        Int t = x;
        Int& r = (t += y);
        EXPECT(&r == &t && t == s, "int-add-inplace", ctx << ": a += b gave " << text(t));
    }
    {
        OP("Int -=");
        Int t = x;
        Int& r = (t -= y);
        EXPECT(&r == &t && t == d, "int-sub-inplace", ctx << ": a -= b gave " << text(t));
    }
    {
        OP("Int *=");
        Int t = x;
        Int& r = (t *= y);
        EXPECT(&r == &t && t == p, "int-mul-inplace", ctx << ": a *= b gave " << text(t));
    }
    EXPECT(text(x) == a.str() && text(y) == b.str(), "int-operand-changed", ctx << ": operands became " << text(x) << ", " << text(y));
    mon::evaluated(6);
    if (full_check)
    {
        mon::nontrivial(hash2("pair", sa, sb));
    }
    SAMPLE("pair", "a=" << brief(sa) << " b=" << brief(sb) << " -> a+b=" << brief(text(s)) << " a-b=" << brief(text(d)) << " a*b=" << brief(text(p)));
}
void unary(const std::string& sa)
{
    const Big a = big(sa);
    const Int x = mk(sa);
    const std::string ctx = "a=" + full(sa);
    OP("Int unary");
    check_int(-x, -a, "int-neg", "-a, " + ctx);
    check_int(+x, a, "int-plus", "+a, " + ctx);
    check_int(x.abs(), a < 0 ? Big(-a) : a, "int-abs", "abs, " + ctx);
    check_int(-(-x), a, "int-neg", "-(-a), " + ctx);
    Int t = x;
    OP("Int ++");
    Int& r1 = ++t;
    EXPECT(&r1 == &t, "int-inc", "++ does not return the object");
    check_int(t, a + 1, "int-inc", "++a, " + ctx);
    OP("Int --");
    Int& r2 = --t;
    EXPECT(&r2 == &t, "int-dec", "-- does not return the object");
    check_int(t, a, "int-dec", "--(++a), " + ctx);
    OP("Int --");
    --t;
    check_int(t, a - 1, "int-dec", "--a, " + ctx);
    OP("Int ++");
    ++t;
    check_int(t, a, "int-inc", "++(--a), " + ctx);
    // aliasing
    t = x;
    OP("Int += self");
    t += t;
    check_int(t, a + a, "int-self-add", "a += a, " + ctx);
    t = x;
    OP("Int -= self");
    t -= t;
    check_int(t, 0, "int-self-sub", "a -= a, " + ctx);
    t = x;
    OP("Int *= self");
    t *= t;
    check_int(t, a * a, "int-self-mul", "a *= a, " + ctx);
    OP("Int op self");
    check_int(x + x, a + a, "int-self-add", "a + a, " + ctx);
    check_int(x - x, 0, "int-self-sub", "a - a, " + ctx);
    check_int(x * x, a * a, "int-self-mul", "a * a, " + ctx);
    mon::evaluated(13);
    mon::nontrivial(hash2("unary", sa, ""));
}
} // namespace

// every pair of a small square
SUITE(small_pairs, 241, 1201)
{
    const int R = mon::thorough ? 600 : 120;
    const int a = int(idx) - R;
    unary(std::to_string(a));
    for (int b = -R; b <= R; ++b)
        pair_ops(std::to_string(a), std::to_string(b), a != 0 && b != 0);
}
// every pair of representation boundaries
SUITE(boundary_pairs, 400, 400)
{
    const auto& v = boundary_ints(mon::thorough ? 45 : 22);
    if (idx >= v.size())
        return;
    unary(v[idx]);
    for (const auto& b : v)
        pair_ops(v[idx], b, true);
}
SUITE(random_pairs, 16000, 600000)
{
    const int maxlen = rng.chance(1, 10) ? 400 : 80;
    const std::string a = gen_int(rng, maxlen);
    const std::string b = rng.chance(1, 2) ? related(rng, a, maxlen) : gen_int(rng, maxlen);
    pair_ops(a, b, a != "0" && b != "0");
    if (rng.chance(1, 4))
        unary(a);
}
// machine int operands through the converting constructor
SUITE(mixed_int, 2500, 40000)
{
    const std::string a = gen_int(rng, 30);
    const int k = rng.chance(1, 3) ? rng.of<int>({INT_MIN, INT_MAX, INT_MIN + 1, 0, 1, -1, 1000000000, -1000000000}) : int(rng.range(INT_MIN, INT_MAX) >> rng.range(0, 30));
    const Int x = mk(a);
    const Big A = big(a), K = k;
    const std::string ctx = "a=" + a + " k=" + std::to_string(k);
    OP("Int op int");
    check_int(x + k, A + K, "int-add-int", ctx);
    check_int(x - k, A - K, "int-sub-int", ctx);
    check_int(x * k, A * K, "int-mul-int", ctx);
    check_int(Int(k) - x, K - A, "int-int-sub", ctx);
    Int t = x;
    t += k, t -= k, t *= k;
    check_int(t, A * K, "int-chain-int", ctx);
    mon::evaluated(5);
    mon::nontrivial(hash2("mixed", a, std::to_string(k)));
}
// histories on a few variables, checked after every step
SUITE(chains, 1200, 40000)
{
    const int NV = 3;
    Int v[NV];
    Big m[NV];
    std::uint64_t h = idx;
    for (int i = 0; i < NV; ++i)
    {
        const std::string s = gen_int(rng, 25);
        v[i] = mk(s);
        m[i] = big(s);
    }
    std::ostringstream hist;
    const int steps = rng.range(20, 70);
    for (int st = 0; st < steps; ++st)
    {
        const int i = rng.range(0, NV - 1), j = rng.range(0, NV - 1), op = rng.range(0, 12);
        if (m[i].str().size() > 350 || m[j].str().size() > 350)
        {
            const std::string s = gen_int(rng, 25);
            v[i] = mk(s), m[i] = big(s);
            v[j] = v[i], m[j] = m[i];
        }
        NOTE("step " << st << " op " << op << " v" << i << "=" << full(m[i].str()) << " v" << j << "=" << full(m[j].str()));
        switch (op)
        {
            case 0: OP("chain +="); v[i] += v[j]; m[i] += m[j]; break;
            case 1: OP("chain -="); v[i] -= v[j]; m[i] -= m[j]; break;
            case 2: OP("chain *="); v[i] *= v[j]; m[i] *= m[j]; break;
            case 3: OP("chain ++"); ++v[i]; m[i] += 1; break;
            case 4: OP("chain --"); --v[i]; m[i] -= 1; break;
            case 5: OP("chain a=a+b"); v[i] = v[i] + v[j]; m[i] = m[i] + m[j]; break;
            case 6: OP("chain a=b-a"); v[i] = v[j] - v[i]; m[i] = m[j] - m[i]; break;
            case 7: OP("chain a=-a"); v[i] = -v[i]; m[i] = -m[i]; break;
            case 8: OP("chain a=b"); v[i] = v[j]; m[i] = m[j]; break;
            case 9:
            {
                OP("chain += int");
                const int k = rng.range(-100, 100);
                v[i] += k, m[i] += k;
                break;
            }
            case 10: // make cancellation likely
            {
                OP("chain near");
                v[i] = v[j], m[i] = m[j];
                ++v[i], m[i] += 1;
                v[i] -= v[j], m[i] -= m[j];
                break;
            }
            case 11: OP("chain abs"); v[i] = v[i].abs(); m[i] = m[i] < 0 ? Big(-m[i]) : m[i]; break;
            case 12:
            {
                OP("chain swap");
                std::swap(v[i], v[j]);
                std::swap(m[i], m[j]);
                break;
            }
        }
        check_int(v[i], m[i], "int-chain", "history step " + std::to_string(st) + " op " + std::to_string(op));
        check_int(v[j], m[j], "int-chain-other", "history step " + std::to_string(st) + " op " + std::to_string(op));
        mon::evaluated();
        h = mon::hash_mix(h, mon::hash_str(m[i].str()) + op);
        mon::nontrivial(h);
    }
    SAMPLE("chain", steps << " steps on " << NV << " variables, last values " << brief(text(v[0])) << ", " << brief(text(v[1])));
}
// counting across digit-length changes and zero
SUITE(counting, 120, 1500)
{
    Big m = rng.chance(1, 3) ? Big(0) : big(pow10s(rng.range(1, 60)));
    m += rng.range(-60, 60);
    if (rng.chance(1, 2))
        m = -m;
    Int v = mk(m);
    const bool up = m < 0 ? rng.chance(1, 2) : rng.chance(1, 2);
    for (int i = 0; i < 130; ++i)
    {
        OP("count");
        if (up)
            ++v, m += 1;
        else
            --v, m -= 1;
        check_int(v, m, up ? "int-inc" : "int-dec", "counting to " + m.str());
        mon::evaluated();
    }
    mon::nontrivial(hash2("count", m.str(), ""));
}
// long operands
SUITE(long_operands, 160, 3000)
{
    const int la = rng.range(300, idx % 8 == 0 ? 6000 : 1500), lb = rng.chance(1, 3) ? la : rng.range(1, 1500);
    auto mkd = [&](int n)
    {
        std::string s = gen_digits(rng, 1);
        s = rng.of<std::string>({"1", "9", "5"});
        const int kind = rng.range(0, 3);
        while (int(s.size()) < n)
            s += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
        s.resize(n);
        return sgn(rng, s);
    };
    const std::string a = mkd(la), b = mkd(lb);
    pair_ops(a, b, true);
    if (la < 1000)
        unary(a);
    SAMPLE("long", "operands of " << la << " and " << lb << " digits");
}
// tens of thousands of digits: past every 16-bit count; the oracle is school arithmetic on the texts
SUITE(very_long_operands, 16, 200)
{
    auto mkd = [&](int n)
    {
        std::string s = rng.of<std::string>({"1", "9", "5"});
        const int kind = rng.range(0, 3);
        while (int(s.size()) < n)
            s += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
        return s;
    };
    // reversed digits, without leading zeros
    auto less = [](const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    auto add = [](std::string a, std::string b)
    {
        std::string r;
        int c = 0;
        for (std::size_t i = 0; i < std::max(a.size(), b.size()) || c; ++i)
        {
            const int d = (i < a.size() ? a[a.size() - 1 - i] - '0' : 0) + (i < b.size() ? b[b.size() - 1 - i] - '0' : 0) + c;
            r += char('0' + d % 10), c = d / 10;
        }
        std::reverse(r.begin(), r.end());
        return r;
    };
    auto sub = [](std::string a, std::string b) // a >= b
    {
        std::string r;
        int c = 0;
        for (std::size_t i = 0; i < a.size(); ++i)
        {
            int d = a[a.size() - 1 - i] - '0' - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0) - c;
            c = d < 0, d += c * 10;
            r += char('0' + d);
        }
        while (r.size() > 1 && r.back() == '0')
            r.pop_back();
        std::reverse(r.begin(), r.end());
        return r;
    };
    auto neg = [](const std::string& s) { return s == "0" ? s : s[0] == '-' ? s.substr(1) : "-" + s; };
    auto sum = [&](const std::string& a, const std::string& b)
    {
        const bool na = a[0] == '-', nb = b[0] == '-';
        const std::string x = a.substr(na), y = b.substr(nb);
        std::string r = na == nb ? add(x, y) : less(x, y) ? sub(y, x) : sub(x, y);
        return (na == nb ? na : less(x, y) ? nb : na) ? neg(r) : r;
    };
    const int la = rng.range(32700, idx % 2 ? 34000 : 70000), lb = rng.of<int>({la, la - 1, int(rng.range(1, la)), int(rng.range(32000, 33000)), 1});
    std::string a = mkd(la), b = mkd(lb);
    if (rng.chance(1, 4))
        a = "1" + std::string(la, '0'); // borrows and carries over the whole length
    if (rng.chance(1, 4))
        a = std::string(la, '9');
    if (rng.chance(1, 4))
        b = rng.chance(1, 2) ? "1" : a.substr(0, a.size() - 1) + char('0' + rng.range(0, 9));
    if (rng.chance(1, 2))
        a = neg(a);
    if (rng.chance(1, 2))
        b = neg(b);
    const std::string ctx = "operands of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " characters: " + brief(a) + ", " + brief(b);
    NOTE(ctx);
    const Int x = mk(a), y = mk(b);
    auto is = [&](const Int& v, const std::string& want, const char* key)
    {
        const std::string got = text(v);
        EXPECT(got == want, key, ctx << ": got " << brief(got) << " want " << brief(want));
        EXPECT(v.digits() == (want == "0" ? 0 : int(want.size()) - (want[0] == '-')) && v == mk(want), std::string(key) + ":canonical", ctx << ": " << brief(got));
        mon::evaluated();
    };
    OP("Int very long");
    is(x, a, "int-long-literal");
    is(x + y, sum(a, b), "int-add");
    is(y + x, sum(a, b), "int-add");
    is(x - y, sum(a, neg(b)), "int-sub");
    is(y - x, sum(b, neg(a)), "int-sub");
    Int t = x;
    is(++t, sum(a, "1"), "int-inc");
    t = x;
    is(--t, sum(a, "-1"), "int-dec");
    t = x;
    is(t += t, sum(a, a), "int-self-add");
    t = x;
    is(t -= t, "0", "int-self-sub");
    is(-x, neg(a), "int-neg");
    is(x.abs(), a[0] == '-' ? neg(a) : a, "int-abs");
    // by a short factor, as a sum
    std::string prod = "0";
    const int k = rng.range(0, 12);
    for (int i = 0; i < k; ++i)
        prod = sum(prod, a);
    is(x * k, prod, "int-mul-int");
    is(Int(-k) * x, neg(prod), "int-mul-int");
    is(x * mk("1000"), a + "000", "int-mul");
    // by a number of the same length: the quotient is short
    if (b.size() + 40 >= a.size())
    {
        const Int q = mk(gen_int(rng, 8)), p = y * q;
        const int s = q.is_zero() ? 0 : q.is_negative() ? -1 : 1;
        is(p / y, text(q), "int-div");
        is(p % y, "0", "int-mod");
        is((p + s * (b[0] == '-' ? -1 : 1)) / y, b == "1" || b == "-1" ? text(q + s) : text(q), "int-div");
    }
    // the order
    const std::string d = sum(a, neg(b));
    EXPECT((x < y) == (d[0] == '-') && (x > y) == (d[0] != '-' && d != "0") && (x == y) == (d == "0"), "int-order", ctx);
    EXPECT(x.is_odd() == bool((a.back() - '0') & 1), "int-odd", ctx);
    mon::nontrivial(hash2("very long", a, b));
    SAMPLE("very long", ctx);
}
// every number of digits up to 400 (1600 in thorough), against as many, one more, one digit and half as many
SUITE(every_length, 200, 800)
{
    for (int n = 2 * int(idx) + 1; n <= 2 * int(idx) + 2; ++n)
    {
        auto mkd = [&](int len)
        {
            std::string s = rng.of<std::string>({"1", "9", "5"});
            const int kind = rng.range(0, 3);
            while (int(s.size()) < len)
                s += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
            return sgn(rng, s);
        };
        const std::string a = mkd(n);
        unary(a);
        for (int len : {n, n + 1, 1, n / 2 + 1})
            pair_ops(a, mkd(len), true);
        pair_ops(std::string(n, '9'), mkd(n), true);
        pair_ops("1" + std::string(n, '0'), mkd(n), true);
        pair_ops(mkd(std::max(1, n / 3)), a, true);
    }
}
// operands that agree in a long leading part, then differ by one unit that the rest nearly or fully makes up for: the
// difference is short, and the borrow or carry runs through everything in between
SUITE(cancellation, 1500, 40000)
{
    auto some = [&](int len)
    {
        std::string s;
        const int kind = rng.range(0, 3);
        while (int(s.size()) < len)
            s += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
        return s;
    };
    auto length = [&](int hi)
    { return rng.chance(1, 3) ? int(rng.range(0, 12)) : int(rng.range(0, hi)); };
    const int hi = rng.chance(1, 5) ? 1200 : 400;
    const std::string head = rng.of<std::string>({"1", "5", "9"}) + some(length(hi));
    const int d = int(rng.range(1, 9)), middle = length(rng.chance(1, 3) ? hi : 30), tail = length(rng.chance(1, 3) ? hi : 30);
    std::string a = head + char('0' + d) + std::string(middle, '0') + some(tail);
    std::string b = head + char('0' + d - 1) + std::string(middle, '9') + some(tail);
    if (rng.chance(1, 4)) // the same up to the unit
        b = head + char('0' + d - 1) + a.substr(head.size() + 1);
    if (rng.chance(1, 6)) // without a head
        a = a.substr(head.size()), b = rng.chance(1, 2) ? std::string(middle, '9') + some(tail) : b.substr(head.size());
    auto plain = [](std::string s)
    {
        const auto at = s.find_first_not_of('0');
        return at == s.npos ? std::string("0") : s.substr(at);
    };
    a = plain(a), b = plain(b);
    pair_ops(a, b, true);
    pair_ops(b, a, true);
    if (b != "0")
        pair_ops(a, "-" + b, true);
    // a sum that is a power of ten or just off it
    const Big power = big(pow10s(int(a.size()) + int(rng.range(0, 9))));
    pair_ops(a, Big(power - big(a) + rng.range(-1, 1)).str(), true);
}
