// C23: an operation whose precondition is broken throws std::runtime_error and changes nothing; one whose precondition holds
// is not rejected. The precondition of each call is told by the table of operations, from the arguments alone.
#include "ops.hpp"
using namespace ops;

// a history with many rejections, and its twin to which the rejected operations are never shown
SUITE(histories, 1300, 70000)
{
    Large mode(idx % 6 == 5);
    build_table();
    const std::uint64_t ws = rng.next();
    Rng r1(ws), r2(ws);
    World w1(r1), w2(r2);
    auto before = w1.snapshot();
    std::uint64_t h = ws;
    for (int i = 0; i < 40; ++i)
    {
        int k = int(rng.range(0, op_count() - 1));
        if (i % 4 == 0)
            k = int((idx * 10 + i / 4) % op_count());
        const std::uint64_t s = rng.next();
        NOTE(op_name(k) << " seed " << s);
        Rng ra(s), rb(s);
        std::ostringstream o1, o2;
        Ctx c1{ra, o1}, c2{rb, o2};
        mon::set_op(op_name(k));
        const mon::Out x = run_op(k, w1, c1);
        const std::string nm = op_name(k);
        NOTE("   " << o1.str());
        EXPECT(x == mon::Out::ok || x == mon::Out::runtime_error, "exception:" + nm, nm << " threw a " << mon::name(x) << ": " << mon::last_what);
        if (c1.pre == 0)
            EXPECT(x == mon::Out::runtime_error, "not-rejected:" + nm, nm << " with a broken precondition: " << o1.str().substr(0, 500));
        if (c1.pre == 1)
            EXPECT(x == mon::Out::ok, "rejected:" + nm, nm << " is rejected although its precondition holds: " << o1.str().substr(0, 500));
        mon::evaluated();
        if (x != mon::Out::ok)
        {
            EXPECT(!mon::last_what.empty(), "message:" + nm, "no message");
            mon::count_n(op_name(k), 1);
            h = mon::hash_str(op_name(k), mon::hash_mix(h, s));
            mon::nontrivial(h);
            SAMPLE("rejected", o1.str().substr(0, 200));
            const auto now = w1.snapshot();
            for (std::size_t j = 0; j < now.size(); ++j)
                EXPECT(now[j] == before[j], "changed:" + nm, "rejected " << nm << " changed object " << j << " from " << before[j].substr(0, 300) << " to " << now[j].substr(0, 300));
        }
        else
        {
            mon::count_n("(accepted)", 1);
            run_op(k, w2, c2);
            EXPECT(o1.str() == o2.str(), "afterwards:" + nm, "after rejections " << o1.str().substr(0, 400) << " without them " << o2.str().substr(0, 400));
            before = w1.snapshot();
            const auto twin = w2.snapshot();
            for (std::size_t j = 0; j < twin.size(); ++j)
                EXPECT(twin[j] == before[j], "afterwards:" + nm, "after rejections object " << j << " is " << before[j].substr(0, 300) << " without them " << twin[j].substr(0, 300));
        }
    }
}

// ---- every boundary of small objects ---------------------------------------------------------------------
template <typename X, typename F>
static void bound(const char* op, bool pre, const X& base, std::initializer_list<int> args, F f)
{
    X x(base);
    const std::string before = dumps(base);
    mon::set_op(op);
    mon::count_n(op, 1);
    const mon::Out o = mon::attempt([&] { f(x); });
    auto at = [&]
    {
        std::string s = std::string(op) + "(";
        for (int a : args)
            s += std::to_string(a) + " ";
        return s + ") on " + before;
    };
    EXPECT(o == (pre ? mon::Out::ok : mon::Out::runtime_error), std::string(pre ? "rejected:" : "not-rejected:") + op, at() << ": " << mon::name(o) << ", its precondition " << (pre ? "holds" : "is broken"));
    if (!pre)
    {
        EXPECT(dumps(x) == before, "changed:" + std::string(op), at() << " was rejected and left " << dumps(x));
        std::uint64_t h = mon::hash_str(op, mon::hash_str(before));
        for (int a : args)
            h = mon::hash_mix(h, std::uint64_t(a));
        mon::nontrivial(h);
    }
    mon::evaluated();
}
static std::vector<int> around(int n)
{
    std::vector<int> v;
    if (n > 20) // both ends of each range and beyond, and one inside
        return {0, 1, -1, n / 2, n - 1, n, n + 1, -n + 1, -n, -n - 1, -n - 2, 2 * n, INT_MIN, INT_MAX, INT_MAX - n, INT_MIN + n, n + 65536, n + 256};
    for (int i = -n - 3; i <= n + 3; ++i)
        v.push_back(i);
    for (int i : {INT_MIN, INT_MIN + 1, INT_MIN + n, INT_MAX, INT_MAX - 1, INT_MAX - n, 1 << 30, -(1 << 30), 65536, -65536, 256, -256})
        v.push_back(i);
    return v;
}
template <typename T>
static void boundaries(Rng& r, int n)
{
    std::vector<T> v;
    for (int i = 0; i < n; ++i)
        v.push_back(Gen<T>::make(r));
    const List<T> l(v);
    const Deque<T> q(v.begin(), v.end());
    const Set<T> s(v.begin(), v.end());
    const T e = Gen<T>::make(r);
    const auto pts = around(n);
    for (int i : pts)
    {
        const bool in = i >= -n && i < n;
        bound("List []", in, l, {i}, [&](auto& x) { mon::keep(x[i]); });
        bound("List [] const", in, l, {i}, [&](const auto& x) { mon::keep(x[i]); });
        bound("List [] =", in, l, {i}, [&](auto& x) { x[i] = e; });
        bound("List remove", in, l, {i}, [&](auto& x) { mon::keep(x.remove(i)); });
        bound("List insert", i >= -n && i <= n, l, {i}, [&](auto& x) { x.insert(i, e); });
        bound("Deque []", in, q, {i}, [&](auto& x) { mon::keep(x[i]); });
        bound("Deque [] const", in, q, {i}, [&](const auto& x) { mon::keep(x[i]); });
        bound("Deque [] =", in, q, {i}, [&](auto& x) { x[i] = e; });
        bound("List >>=", true, l, {i}, [&](auto& x) { x >>= i; });
        bound("List <<=", true, l, {i}, [&](auto& x) { x <<= i; });
        bound("Deque >>=", true, q, {i}, [&](auto& x) { x >>= i; });
        bound("Deque <<=", true, q, {i}, [&](auto& x) { x <<= i; });
        if (i < 10 || (long long)i * n > INT_MAX || n == 0)
        {
            const bool tp = i >= 0 && (long long)i * n <= INT_MAX;
            if (!(tp && n == 0 && i > 100))
            {
                bound("List *", tp, l, {i}, [&](const auto& x) { mon::keep(x * i); });
                bound("List *=", tp, l, {i}, [&](auto& x) { x *= i; });
            }
        }
        for (int j : pts)
        {
            bound("List erase", range_pre(n, i, j), l, {i, j}, [&](auto& x) { x.erase(i, j); });
            if (i >= 0) // before the first position nothing is specified
                bound("List index from", true, l, {i, j}, [&](const auto& x) { mon::keep(x.index(e, i, j) + x.contains(e, i, j)); });
            for (int k : {0, 1, -1, 2, INT_MAX, INT_MIN})
                bound("List slice", slice_pre(n, i, j, k), l, {i, j, k}, [&](const auto& x) { mon::keep(x.slice(i, j, k)); });
        }
    }
    bound("Deque front", n > 0, q, {}, [&](auto& x) { mon::keep(x.front()); });
    bound("Deque back", n > 0, q, {}, [&](auto& x) { mon::keep(x.back()); });
    bound("Deque front const", n > 0, q, {}, [&](const auto& x) { mon::keep(x.front()); });
    bound("Deque back const", n > 0, q, {}, [&](const auto& x) { mon::keep(x.back()); });
    bound("Deque pop_front", n > 0, q, {}, [&](auto& x) { mon::keep(x.pop_front()); });
    bound("Deque pop_back", n > 0, q, {}, [&](auto& x) { mon::keep(x.pop_back()); });
    bound("Set min", n > 0, s, {}, [&](const auto& x) { mon::keep(x.min()); });
    bound("Set max", n > 0, s, {}, [&](const auto& x) { mon::keep(x.max()); });
    bound("Set pop", n > 0, s, {}, [&](auto& x) { mon::keep(x.pop()); });
    Dict<T, int> d;
    for (int i = 0; i < n; ++i)
        d.add(v[i], i);
    bound("Dict min", n > 0, d, {}, [&](const auto& x) { mon::keep(x.min()); });
    bound("Dict max", n > 0, d, {}, [&](const auto& x) { mon::keep(x.max()); });
    bound("Dict pop", n > 0, d, {}, [&](auto& x) { mon::keep(x.pop()); });
    for (int i = 0; i < 6; ++i)
    {
        const T k = i < 3 || n == 0 ? Gen<T>::make(r) : v[r.range(0, n - 1)];
        const bool has = std::find(v.begin(), v.end(), k) != v.end();
        bound("Dict []", has, d, {}, [&](auto& x) { mon::keep(x[k]); });
        bound("Dict [] const", has, d, {}, [&](const auto& x) { mon::keep(x[k]); });
        bound("Dict [] =", has, d, {}, [&](auto& x) { x[k] = 5; });
        bound("Dict get", true, d, {}, [&](const auto& x) { mon::keep(x.get(k, 5)); });
        bound("Dict remove", true, d, {}, [&](auto& x) { mon::keep(x.remove(k)); });
        bound("Set remove", true, s, {}, [&](auto& x) { mon::keep(x.remove(k)); });
        bound("List -= missing", true, l, {}, [&](auto& x) { x -= k; });
    }
}
SUITE(container_bounds, 30, 300)
{
    const int n = int(idx % 10 < 6 ? idx % 10 : rng.range(6, 20));
    switch (idx / 2 % 3)
    {
        case 0: boundaries<int>(rng, n); break;
        case 1: boundaries<Str>(rng, n); break;
        default: boundaries<List<int>>(rng, n);
    }
}
SUITE(sized_bounds, 100, 900)
{
    Large mode;
    ++depth; // of small elements
    const int n = 21 + int(idx) * 4 + int(rng.range(0, 3));
    boundaries<int>(rng, n);
    if (idx % 8 == 0)
        boundaries<Str>(rng, n);
    --depth;
}
SUITE(text_bounds, 30, 300)
{
    std::string t;
    const int n = int(idx % 12 < 6 ? idx % 6 : rng.range(21, 400));
    for (int i = 0; i < n; ++i)
        t += char(rng.range(0, 255));
    const Str s(t), e = Gen<Str>::make(rng);
    const auto pts = around(n);
    for (int i : pts)
    {
        bound("Str []", i >= -n && i < n, s, {i}, [&](const auto& x) { mon::keep(x[i]); });
        bound("Str rotate", true, s, {i}, [&](const auto& x) { mon::keep(x << i), mon::keep(x >> i); });
        bound("Str to_integer", i >= 2 && i <= 36 && is_based_literal(s, i), s, {i}, [&](const auto& x) { mon::keep(x.to_integer(i)); });
        if (i < 10 || (long long)i * n > INT_MAX)
            bound("Str *", i >= 0 && (long long)i * n <= INT_MAX, s, {i}, [&](const auto& x) { mon::keep(x * i); });
        for (int j : pts)
        {
            bound("Str erase", range_pre(n, i, j), s, {i, j}, [&](const auto& x) { mon::keep(x.erase(i, j)); });
            if (i >= 0)
                bound("Str find from", true, s, {i, j}, [&](const auto& x) { mon::keep(x.find(e, i, j) + x.contains(e, i, j)); });
            for (int k : {0, 1, -1, 2, INT_MAX, INT_MIN})
                bound("Str slice", slice_pre(n, i, j, k), s, {i, j, k}, [&](const auto& x) { mon::keep(x.slice(i, j, k)); });
        }
    }
    for (const char* p : {"", "a", "ab", " "})
        bound("Str split", *p != 0, s, {}, [&](const auto& x) { mon::keep(x.split(p)); });
}
// domains of the numbers
SUITE(number_domains, 120, 4000)
{
    const Int a = idx == 0 ? Int(0) : Gen<Int>::make(rng);
    const Int b = idx % 3 == 0 ? Int(0) : Gen<Int>::make(rng);
    const Int zero;
    bound("Int /= 0", false, a, {}, [&](auto& x) { x /= zero; });
    bound("Int %= 0", false, a, {}, [&](auto& x) { x %= zero; });
    bound("Int / 0", false, a, {}, [&](const auto& x) { mon::keep(x / zero); });
    bound("Int % 0", false, a, {}, [&](const auto& x) { mon::keep(x % zero); });
    bound("Int /= itself", !a.is_zero(), a, {}, [&](auto& x) { x /= x; });
    bound("Int %= itself", !a.is_zero(), a, {}, [&](auto& x) { x %= x; });
    bound("Int /=", !b.is_zero(), a, {}, [&](auto& x) { x /= b; });
    bound("Int sqrt", !a.is_negative(), a, {}, [&](const auto& x) { mon::keep(Int::sqrt(x)); });
    if (a.is_negative() || a.digits() < 3)
        bound("Int factorial", !a.is_negative(), a, {}, [&](const auto& x) { mon::keep(x.factorial()); });
    if (a.digits() < 60)
        for (int base : {-10, -1, 0, 1, 2, 3, 10, 11})
            bound("Int log", a.is_positive() && base >= 2, a, {base}, [&](const auto& x) { mon::keep(Int::log(x, base)); });
    for (int e : {-1000, -2, -1, 0, 1, 2})
    {
        bound("Int pow", e >= 0 || !a.is_zero(), a, {e}, [&](const auto& x) { mon::keep(Int::pow(x, e)); });
        bound("Int pow mod", e >= 0 || !a.is_zero(), a, {e}, [&](const auto& x) { mon::keep(Int::pow(x, e, 7)); });
    }
    for (int d : {INT_MIN, -100, -2, -1, 0, 1, 9, 10, 100})
        bound("Int random", d >= -1, a, {d}, [&](const auto&) { mon::keep(Int::random(d)); });
    static const char* const texts[] = {"", "+", "-", " 1", "1 ", "1a", "a", "0x1", "--1", "+-1", "1-", "1.0", "1e3", "1'000", "12345678901234567890x", "x12345678901234567890", "1234567890123 4567890", "\xff", "1\n", "\t1", "-+", "0", "-0", "+0", "007", "-007", "123456789012345678901234567890", "+5"};
    for (const char* t : texts)
    {
        bound("Int literal", is_int_literal(t), a, {}, [&](const auto&) { Int y(t); mon::keep(y); });
        bound("Int = literal", is_int_literal(t), a, {}, [&](auto& x) { x = t; });
        if (t[0] != ' ' && t[0] != '\t' && !strchr(t, ' ') && !strchr(t, '\n') && t[0]) // one word
            bound("Int >> literal", is_int_literal(t), a, {}, [&](auto& x) { std::istringstream in(t); in >> x; });
        bound("Str to_integer literal", is_based_literal(t, 10), Str(t), {}, [&](const auto& x) { mon::keep(x.to_integer()); });
    }
    // (a lone sign may also be rejected by failing the stream, see C10)
    // literals that are wrong from the start, in the middle, or at their last character; the target is none of the values they start with
    const std::string num = std::to_string(rng.range(2, 99999)), den = std::to_string(rng.range(2, 99999)), sign = rng.of<const char*>({"", "-", "+"});
    const Fraction fr(-7, 11);
    const Complex co(-3.25, 0.125);
    for (const std::string& t : std::vector<std::string>{num + "/", num + "/x", num + "/" + den + "x", num + "|" + den, num + "x", num + "/0", num + "/" + den + "/", "/" + den, "x" + num, num + "/99999999999999", num + "/-", num + "//" + den, ""})
        bound("Fraction >> literal", false, fr, {}, [&](auto& x) { std::istringstream in((t.empty() || !isdigit((unsigned char)t[0]) ? "" : sign) + t); in >> x; });
    for (const std::string& t : std::vector<std::string>{num + "/" + den, num + "/-" + den, num, num + " /"})
        bound("Fraction >> literal", true, fr, {}, [&](auto& x) { std::istringstream in(sign + t); in >> x; });
    for (const std::string& t : std::vector<std::string>{num + "+" + den + "k", num + "+" + den, num + "-" + den + "jj", num + "+" + den + ".5.5j", num + "+", num + "+j", num + "k", num + "jj", num + "-x" + den + "j", num + "*" + den + "j", "x" + num, "j", ""})
        bound("Complex >> literal", false, co, {}, [&](auto& x) { std::istringstream in((t.empty() || !isdigit((unsigned char)t[0]) ? "" : sign) + t); in >> x; });
    for (const std::string& t : std::vector<std::string>{num + "+" + den + "j", num + ".5-" + den + "j", num, num + "j"})
        bound("Complex >> literal", true, co, {}, [&](auto& x) { std::istringstream in(sign + t); in >> x; });
    for (int base : {INT_MIN, -10, -1, 0, 1, 2, 36, 37, 100, INT_MAX})
        bound("Str to_integer base", base >= 2 && base <= 36, Str("101"), {base}, [&](const auto& x) { mon::keep(x.to_integer(base)); });
    const Fraction f = Gen<Fraction>::make(rng), g = Gen<Fraction>::make(rng), fz;
    bound("Fraction /= 0", false, f, {}, [&](auto& x) { x /= fz; });
    bound("Fraction %= 0", false, f, {}, [&](auto& x) { x %= fz; });
    bound("Fraction / 0", false, f, {}, [&](const auto& x) { mon::keep(x / fz); });
    bound("Fraction % 0", false, f, {}, [&](const auto& x) { mon::keep(x % fz); });
    if (frac_fits(f, g, '/'))
        bound("Fraction /=", g.numerator() != 0, f, {}, [&](auto& x) { x /= g; });
    if (frac_fits(f, g, '%'))
        bound("Fraction %=", g.numerator() != 0, f, {}, [&](auto& x) { x %= g; });
    bound("Fraction /= itself", f.numerator() != 0, f, {}, [&](auto& x) { x /= x; });
    for (int n : {INT_MIN, -1, 0, 1, 5, INT_MAX})
        for (int d : {INT_MIN, INT_MIN + 1, -1, 0, 1, 7, INT_MAX})
            if (d == 0 || fits(mkq(n, d)))
                bound("Fraction construct", d != 0, f, {n, d}, [&](auto& x) { x = Fraction(n, d); });
    const Complex c = Gen<Complex>::make(rng), cz;
    bound("Complex /= 0", false, c, {}, [&](auto& x) { x /= cz; });
    bound("Complex / 0", false, c, {}, [&](const auto& x) { mon::keep(x / cz); });
    bound("Complex /=", true, c, {}, [&](auto& x) { x /= Complex(0, 1); });
    bound("Complex pow 0", false, c, {}, [&](const auto&) { mon::keep(Complex::pow(cz, 2)); });
    bound("Complex pow", true, c, {}, [&](const auto& x) { mon::keep(Complex::pow(x, 0)); });
}
