// C19: Str::to_integer and Str::to_decimal against their grammars.
#include "strx.hpp"
#include "intx.hpp"
#include <climits>
#include <cmath>
namespace
{
using S = std::string;
bool blank(char c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
}
int value(char c) // in base 36, or 99
{
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'z')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z')
        return c - 'A' + 10;
    return 99;
}
bool odd(const S& s) // blanks whose role is not specified
{
    for (unsigned char c : s)
        if (c == '\v' || c == '\f')
            return true;
    return false;
}
S core(const S& s)
{
    std::size_t a = 0, b = s.size();
    while (a < b && blank(s[a]))
        ++a;
    while (b > a && blank(s[b - 1]))
        --b;
    return s.substr(a, b - a);
}
void integer_one(const S& s, int base)
{
    S c = core(s);
    bool ok = base >= 2 && base <= 36;
    const bool neg = !c.empty() && c[0] == '-';
    if (!c.empty() && (c[0] == '+' || c[0] == '-'))
        c.erase(0, 1);
    ok = ok && !c.empty();
    Big want = 0;
    for (char x : c)
    {
        ok = ok && value(x) < base;
        if (ok)
            want = want * base + value(x);
    }
    if (neg)
        want = -want;
    const std::string ctx = mon::esc(s) + ".to_integer(" + std::to_string(base) + ")";
    NOTE(ctx);
    mon::set_op("to_integer");
    Int got;
    const Str str(s);
    const auto o = mon::attempt([&] { got = str.to_integer(base); });
    mon::evaluated();
    if (odd(s) && !ok)
        return;
    EXPECT(ok ? o == mon::Out::ok : o == mon::Out::runtime_error, ok ? "to_integer-rejected" : "to_integer-accepted", ctx << ": " << mon::name(o) << (o == mon::Out::ok ? " " + text(got) : ""));
    if (ok)
    {
        check_int(got, want, "to_integer-value", ctx);
        if (base == 10)
            check_int(str.to_integer(), want, "to_integer-default", ctx);
        if (c.size() > 1)
            mon::nontrivial(hash2("int", s, std::to_string(base)));
        mon::count_n("to_integer accepted", 1);
    }
    else
        mon::count_n("to_integer rejected", 1);
    SAMPLE(ok ? "to_integer" : "to_integer error", ctx << (ok ? " = " + text(got) : ""));
}
bool decimal_literal(const S& c)
{
    std::size_t p = 0, n = 0;
    if (p < c.size() && (c[p] == '+' || c[p] == '-'))
        ++p;
    while (p < c.size() && isdigit((unsigned char)c[p]))
        ++p, ++n;
    if (p < c.size() && c[p] == '.')
    {
        ++p;
        while (p < c.size() && isdigit((unsigned char)c[p]))
            ++p, ++n;
    }
    if (n == 0)
        return false;
    if (p < c.size() && (c[p] == 'e' || c[p] == 'E'))
    {
        ++p;
        if (p < c.size() && (c[p] == '+' || c[p] == '-'))
            ++p;
        const std::size_t q = p;
        while (p < c.size() && isdigit((unsigned char)c[p]))
            ++p;
        if (p == q)
            return false;
    }
    return p == c.size();
}
const std::vector<S>& specials()
{
    static const std::vector<S> v{"inf", "INF", "Inf", "+inf", "+INF", "+Inf", "infinity", "INFINITY", "Infinity", "+infinity", "+INFINITY", "+Infinity",
                                  "-inf", "-INF", "-Inf", "-infinity", "-INFINITY", "-Infinity", "nan", "NaN", "NAN", "+nan", "+NaN", "+NAN", "-nan", "-NaN", "-NAN"};
    return v;
}
void decimal_one(const S& s)
{
    const std::string ctx = mon::esc(s) + ".to_decimal()";
    NOTE(ctx);
    mon::set_op("to_decimal");
    double got = -12345;
    const Str str(s);
    const auto o = mon::attempt([&] { got = str.to_decimal(); });
    mon::evaluated();
    const auto& sp = specials();
    const auto it = std::find(sp.begin(), sp.end(), s);
    if (it != sp.end())
    {
        const int i = it - sp.begin();
        EXPECT(o == mon::Out::ok && (i < 12 ? got == INFINITY : i < 18 ? got == -INFINITY : std::isnan(got)), "to_decimal-special", ctx << ": " << mon::name(o) << " " << got);
        mon::count_n("to_decimal special", 1);
        return;
    }
    const S c = core(s);
    const bool ok = decimal_literal(c);
    if (odd(s) && !ok)
        return;
    EXPECT(ok ? o == mon::Out::ok : o == mon::Out::runtime_error, ok ? "to_decimal-rejected" : "to_decimal-accepted", ctx << ": " << mon::name(o) << " " << got);
    if (ok)
    {
        const double want = std::strtod(c.c_str(), nullptr); // correctly rounded
        char b[128];
        snprintf(b, sizeof b, "%.17g want %.17g", got, want);
        EXPECT(got == want, "to_decimal-value", ctx << " = " << b);
        mon::nontrivial(hash2("dec", s, ""));
        mon::count_n(std::isinf(want) ? "to_decimal too big" : want == 0 ? "to_decimal zero" : "to_decimal accepted", 1);
        SAMPLE("to_decimal", ctx << " = " << got);
    }
    else
        mon::count_n("to_decimal rejected", 1);
}
S pad(Rng& r, const S& s)
{
    S o;
    for (int i = r.range(0, 2); i > 0; --i)
        o += r.of<char>({' ', '\t', '\n', '\r'});
    o += s;
    for (int i = r.range(0, 2); i > 0; --i)
        o += r.of<char>({' ', '\t', '\n', '\r'});
    return o;
}
S mutate(Rng& r, S s, const char* al)
{
    for (int k = r.range(1, 2); k > 0; --k)
    {
        const char c = r.chance(1, 8) ? char(r.range(0, 255)) : al[r.range(0, strlen(al) - 1)];
        const int pos = r.range(0, s.size());
        switch (r.range(0, 2))
        {
            case 0: s.insert(s.begin() + pos, c); break;
            case 1:
                if (pos < int(s.size()))
                    s[pos] = c;
                break;
            default:
                if (pos < int(s.size()))
                    s.erase(pos, 1);
        }
    }
    return s;
}
S digits(Rng& r, int base, int maxlen)
{
    const char* lo = "0123456789abcdefghijklmnopqrstuvwxyz";
    const char* up = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    S s;
    const int kind = r.range(0, 3);
    for (int i = r.range(1, r.chance(1, 10) ? maxlen : 8); i > 0; --i)
    {
        const int d = kind == 0 ? base - 1 : kind == 1 && r.chance(3, 4) ? 0 : int(r.range(0, base - 1));
        s += r.chance(1, 2) ? lo[d] : up[d];
    }
    return s;
}
S decimal(Rng& r)
{
    S s = r.of<S>({"", "", "+", "-"});
    auto run = [&](int lo, int hi)
    {
        S d;
        const bool zeros = r.chance(1, 5);
        for (int i = r.range(lo, r.chance(1, 12) ? hi * 20 : hi); i > 0; --i)
            d += zeros && i > 1 ? '0' : char('0' + r.range(0, 9));
        return d;
    };
    switch (r.range(0, 4))
    {
        case 0: s += run(1, 20); break;
        case 1: s += run(1, 20) + "." + run(1, 20); break;
        case 2: s += "." + run(1, 20); break;
        case 3: s += run(1, 20) + "."; break;
        default: s += run(1, 18) + "." + run(0, 3);
    }
    if (r.chance(1, 2))
        s += r.of<S>({"e", "E"}) + r.of<S>({"", "+", "-"}) + (r.chance(1, 4) ? "0" : "") + std::to_string(r.chance(1, 3) ? r.range(0, 400) : r.chance(1, 8) ? r.range(0, 2000000000) : r.range(0, 30));
    return s;
}
} // namespace
SUITE(integer_literals, 6000, 200000)
{
    for (int i = 0; i < 4; ++i)
    {
        const int base = rng.chance(1, 3) ? 10 : rng.range(2, 36);
        S s = rng.of<S>({"", "", "+", "-"}) + digits(rng, base, 80);
        integer_one(s, base);
        integer_one(pad(rng, s), base);
        integer_one(mutate(rng, pad(rng, s), "0129azAZ+- .\t\nxX_"), base);
        integer_one(s, rng.range(2, 36)); // another base
        integer_one(s, rng.of<int>({-1, 0, 1, 37, INT_MAX, INT_MIN, -10, 100}));
    }
}
SUITE(integer_long, 40, 1000)
{
    const int base = rng.range(2, 36);
    integer_one(rng.of<S>({"", "-"}) + digits(rng, base, 700) + digits(rng, base, 700), base);
}
SUITE(integer_digits, 35, 35) // every byte as a single digit, alone and inside, in every base
{
    const int base = idx + 2;
    for (int c = 0; c < 256; ++c)
    {
        integer_one(S(1, char(c)), base);
        integer_one("1" + S(1, char(c)) + "0", base);
        integer_one("-" + S(1, char(c)), base);
        integer_one("1" + S(1, char(c)), base);
    }
}
SUITE(integer_small_exhaustive, 49, 49) // every string up to length 5 over a small alphabet
{
    const S al = "+-01a \n";
    const S pre = {al[idx / 7], al[idx % 7]};
    for (int base : {2, 10, 16})
    {
        if (idx < 7)
            integer_one(S(1, al[idx]), base);
        if (idx == 0)
            integer_one("", base);
        integer_one(pre, base);
        for (char a : al)
        {
            integer_one(pre + a, base);
            for (char b : al)
            {
                integer_one(pre + a + b, base);
                for (char c : al)
                    integer_one(pre + a + b + c, base);
            }
        }
    }
}
SUITE(decimal_literals, 8000, 300000)
{
    for (int i = 0; i < 4; ++i)
    {
        const S s = decimal(rng);
        decimal_one(s);
        decimal_one(pad(rng, s));
        decimal_one(mutate(rng, pad(rng, s), "0129+-.eE \t\nif"));
    }
}
SUITE(decimal_specials, 27, 27)
{
    const S& s = specials()[idx];
    decimal_one(s);
    for (int i = 0; i < 60; ++i)
        decimal_one(mutate(rng, s, "infaINFAtyTY+-. "));
    decimal_one(" " + s);
    decimal_one(s + " ");
    for (std::size_t k = 0; k < s.size(); ++k)
        decimal_one(s.substr(0, k)), decimal_one(s.substr(k + 1));
}
SUITE(decimal_limits, 400, 8000) // around the largest, the smallest and the halfway cases
{
    char b[1200];
    double v;
    switch (rng.range(0, 4))
    {
        case 0: v = 0x1.fffffffffffffp1023; break;
        case 1: v = 0x1p-1022 * rng.unit() * 4; break;
        case 2: v = 0x1p-1074 * rng.range(1, 10); break;
        case 3: v = std::ldexp(rng.unit() + 0.5, rng.range(-1000, 1000)); break;
        default: v = double(rng.next());
    }
    snprintf(b, sizeof b, "%.*e", int(rng.range(0, 30)), v);
    decimal_one(b);
    snprintf(b, sizeof b, "%.*f", int(rng.range(0, 40)), v);
    decimal_one(b);
    snprintf(b, sizeof b, "%.17g", v);
    decimal_one(b);
    // exactly between two neighbours, and a little off
    if (v > 1e-200 && v < 1e200)
    {
        snprintf(b, sizeof b, "%.760e", v); // exact
        decimal_one(b);
    }
    decimal_one("1797693134862315" + std::to_string(rng.range(70, 90)) + "e292");
    decimal_one(std::to_string(rng.range(1, 99)) + "e" + std::to_string(rng.range(300, 320)));
    decimal_one(std::to_string(rng.range(1, 99)) + "e-" + std::to_string(rng.range(300, 340)));
    decimal_one("0." + S(rng.range(0, 400), '0') + std::to_string(rng.range(1, 999)));
    decimal_one(std::to_string(rng.range(1, 999)) + S(rng.range(0, 400), '0'));
    decimal_one("0e" + std::to_string(rng.range(0, 999999)));
}
SUITE(decimal_small_exhaustive, 64, 64) // every string up to length 5 (6 in thorough) over a small alphabet
{
    const S al = "+-05.e E";
    const S pre = {al[idx / 8], al[idx % 8]};
    if (idx < 8)
        decimal_one(S(1, al[idx]));
    if (idx == 0)
    {
        decimal_one("");
        for (int c = 0; c < 256; ++c)
            decimal_one(S(1, char(c))), decimal_one("1" + S(1, char(c))), decimal_one("1" + S(1, char(c)) + "2");
    }
    decimal_one(pre);
    for (char a : al)
    {
        decimal_one(pre + a);
        for (char b : al)
        {
            decimal_one(pre + a + b);
            for (char c : al)
            {
                decimal_one(pre + a + b + c);
                if (mon::thorough)
                    for (char d : al)
                        decimal_one(pre + a + b + c + d);
            }
        }
    }
}
