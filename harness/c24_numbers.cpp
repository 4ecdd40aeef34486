#include "c24_faults.hpp"

// numbers and strings: nothing but allocations can fail
static void ints(Rng& rng, int digits)
{
    auto gen = [&] { return mk(gen_digits(rng, digits)); };
    const Int a = rng.chance(1, 2) ? gen() : -gen();
    const Int b = rng.chance(1, 8) ? Int(a) : rng.chance(1, 2) ? gen() : -gen();
    const Int m = mk(gen_digits(rng, 30)) + 2;
    const bool on = true;
    using I = Int;
    auto run = [&](const char* op, const Int& base, Want w, auto f) { inject(op, base, w, f, on); };
    run("Int copy", a, strong, [&](I& x) { I y(x); mon::keep(y); });
    run("Int =", a, basic, [&](I& x) { x = b; });
    run("Int = itself", a, basic, [&](I& x) { x = x; });
    run("Int from text", a, strong, [&](I&) { I y("-123456789012345678901234567890"); mon::keep(y); });
    run("Int +=", a, basic, [&](I& x) { x += b; });
    run("Int -=", a, basic, [&](I& x) { x -= b; });
    run("Int *=", a, basic, [&](I& x) { x *= b; });
    run("Int += itself", a, basic, [&](I& x) { x += x; });
    run("Int -= itself", a, basic, [&](I& x) { x -= x; });
    run("Int *= itself", a, basic, [&](I& x) { x *= x; });
    run("Int ++", a, basic, [&](I& x) { ++x; });
    run("Int --", a, basic, [&](I& x) { --x; });
    for (const char* near : {"0", "-1", "1", "999999999", "-999999999", "1000000000", "-1000000000", "999999999999999999", "-999999999999999999999999999", "1000000000000000000000000000"})
    {
        const Int n = mk(near);
        run("Int ++ at a boundary", n, basic, [&](I& x) { ++x; });
        run("Int -- at a boundary", n, basic, [&](I& x) { --x; });
        run("Int += 1 at a boundary", n, basic, [&](I& x) { x += 1; });
    }
    if (!b.is_zero())
    {
        run("Int /=", a, basic, [&](I& x) { x /= b; });
        run("Int %=", a, basic, [&](I& x) { x %= b; });
        run("Int / %", a, strong, [&](I& x) { mon::keep(x / b), mon::keep(x % b); });
    }
    if (!a.is_zero())
    {
        run("Int /= itself", a, basic, [&](I& x) { x /= x; });
        run("Int %= itself", a, basic, [&](I& x) { x %= x; });
    }
    run("Int + - *", a, strong, [&](I& x) { mon::keep(x + b), mon::keep(x - b), mon::keep(x * b), mon::keep(-x), mon::keep(x.abs()); });
    const Int sa = mk(gen_digits(rng, 25)), sb = mk(gen_digits(rng, 25));
    run("Int gcd lcm", sa, strong, [&](I& x) { mon::keep(Int::gcd(x, sb)), mon::keep(Int::lcm(x, sb)); });
    run("Int sqrt", sa, strong, [&](I& x) { mon::keep(Int::sqrt(x.abs())); });
    run("Int pow", sa, strong, [&](I& x) { mon::keep(Int::pow(x, 5)), mon::keep(Int::pow(x, 3, m)); });
    run("Int log", sa, strong, [&](I& x) { mon::keep(Int::log(x.abs() + 1, 7)); });
    run("Int order", a, strong, [&](I& x) { mon::keep((x < b) + (x == b)); });
}
SUITE(int_allocations, 160, 8000)
{
    ints(rng, 80);
}
SUITE(int_large, 40, 2000)
{
    Sparse mode;
    ints(rng, 900);
}
static void strings(Rng& rng, int size)
{
    auto gen = [&]
    {
        std::string s;
        for (int i = int(rng.range(0, size)); i > 0; --i)
            s += rng.of<char>({'a', 'b', ' ', 'A', '\0', '{', '}', '1'});
        return Str(s);
    };
    const Str a = gen(), b = gen(), t("a");
    const List<Str> parts = a.split("a", true);
    auto run = [&](const char* op, const Str& base, Want w, auto f) { inject(op, base, w, f, true); };
    run("Str copy", a, strong, [&](Str& x) { Str y(x); });
    run("Str =", a, strong, [&](Str& x) { x = b; });
    run("Str + *", a, strong, [&](Str& x) { mon::keep((x + b).size() + (x * 3).size() + (x + 'c').size()); });
    run("Str rotate", a, strong, [&](Str& x) { mon::keep((x << 3).size() + (x >> 40).size()); });
    run("Str case", a, strong, [&](Str& x) { mon::keep(x.lower().size() + x.upper().size() + x.reverse().size() + x.strip().size()); });
    run("Str replace", a, strong, [&](Str& x) { mon::keep(x.replace(t, b).size() + x.replace("", t).size()); });
    run("Str split join", a, strong, [&](Str& x) { mon::keep(x.split(t).size() + t.join(parts).size()); });
    run("Str slice erase", a, strong, [&](Str& x) { if (x.size()) mon::keep(x.slice(-1, -x.size() - 1, -1).size() + x.erase(0, 1).size()); });
    run("Str to_integer", Str("123456789012345678901234567890"), strong, [&](Str& x) { mon::keep(x.to_integer()), mon::keep(x.to_integer(36)); });
    run("Str queries", a, strong, [&](Str& x) { mon::keep(x.find(b) + x.count(t) + x.starts_with(b) + (x < b)); });
}

SUITE(str_allocations, 160, 8000)
{
    strings(rng, 60);
}
SUITE(str_large, 40, 2000)
{
    Sparse mode;
    strings(rng, 1500);
}
