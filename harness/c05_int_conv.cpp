#include "intx.hpp"

namespace
{
bool literal_ok(const std::string& s)
{
    std::size_t i = (!s.empty() && (s[0] == '+' || s[0] == '-')) ? 1 : 0;
    if (i == s.size())
        return false;
    for (; i < s.size(); ++i)
        if (!(s[i] >= '0' && s[i] <= '9'))
            return false;
    return true;
}
void literal(const std::string& s) // no NUL inside
{
    NOTE("literal " << mon::esc(s));
    OP("Int(const char*)");
    bool built = false;
    std::string got;
    const auto o = mon::attempt([&]
                                {
                                    Int x(s.c_str());
                                    built = true;
                                    if (literal_ok(s))
                                        check_int(x, big(s), "int-literal", "Int(" + mon::esc(s) + ")");
                                    else
                                        got = text(x);
                                });
    if (literal_ok(s))
    {
        EXPECT(o == mon::Out::ok, "int-literal-rejected", "Int(" << mon::esc(s) << "): " << name(o));
        mon::count_n("accepted literals", 1);
    }
    else
    {
        EXPECT(!built && o == mon::Out::runtime_error, "int-literal-accepted", "Int(" << mon::esc(s) << "): " << name(o) << " value " << got);
        mon::count_n("rejected literals", 1);
    }
    mon::evaluated();
    mon::nontrivial(hash2("lit", s, ""));
    SAMPLE(literal_ok(s) ? "literal" : "bad literal", "Int(" << mon::esc(s) << ") -> " << (built ? "accepted" : "rejected"));
}
void machine(int k)
{
    OP("Int(int)");
    NOTE("Int(" << k << ")");
    check_int(Int(k), k, "int-from-int", "Int(" + std::to_string(k) + ")");
    OP("to_integer");
    EXPECT(Int(k).to_integer<int>() == k, "int-to-int", "Int(" << k << ").to_integer<int>() is " << Int(k).to_integer<int>());
    mon::evaluated(2);
    mon::nontrivial(mon::hash_mix(77, std::uint64_t(std::int64_t(k))));
}
std::string s128(__int128 v)
{
    Big b = 0;
    const bool n = v < 0;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    b = Big(std::uint64_t(u >> 64));
    b <<= 64;
    b += std::uint64_t(u);
    return (n ? Big(-b) : b).str();
}
std::string u128(unsigned __int128 u)
{
    Big b = Big(std::uint64_t(u >> 64));
    b <<= 64;
    b += std::uint64_t(u);
    return b.str();
}
template <typename T>
void to_t(const char* tn, T v, const std::string& s)
{
    OP("to_integer<T>");
    NOTE("to_integer<" << tn << "> of " << s);
    const T g = mk(s).template to_integer<T>();
    EXPECT(g == v, std::string("int-to-integer<") + tn + ">", "Int(" << s << ").to_integer<" << tn << ">() is wrong");
    mon::evaluated();
    mon::nontrivial(hash2(tn, s, ""));
    SAMPLE(tn, "to_integer<" << tn << ">() of " << s);
}
template <typename T>
void to_native(const char* tn, Rng& r)
{
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    for (int i = 0; i < 12; ++i)
    {
        to_t<T>(tn, T(lo + T(i)), std::to_string(T(lo + T(i))));
        to_t<T>(tn, T(hi - T(i)), std::to_string(T(hi - T(i))));
    }
    for (int i = 0; i < 20; ++i)
    {
        const T v = T(r.next() >> r.range(0, 63));
        to_t<T>(tn, v, std::to_string(v));
        if constexpr (std::is_signed_v<T>)
        {
            if (v != lo)
                to_t<T>(tn, T(-v), std::to_string(T(-v)));
        }
    }
    // powers of ten and their neighbours that fit
    T p = 1;
    while (true)
    {
        for (int d : {-1, 0, 1})
            if (!(d == 1 && p == hi))
                to_t<T>(tn, T(p + d), std::to_string(T(p + d)));
        if (p > hi / 10)
            break;
        p *= 10;
    }
}
} // namespace

// all strings up to length 4 over the interesting characters
SUITE(literals_exhaustive, 169, 2197)
{
    static const std::string al = std::string("+-0159 .ae\t/:", 13);
    const int n = al.size();
    std::string pre;
    if (mon::thorough)
        pre += al[idx / (n * n)];
    pre += al[idx / n % n];
    pre += al[idx % n];
    if (idx == 0)
    {
        literal("");
        for (int i = 1; i < 256; ++i)
        {
            literal(std::string(1, char(i)));
            literal("1" + std::string(1, char(i)));
            literal(std::string(1, char(i)) + "1");
            literal("12" + std::string(1, char(i)) + "34");
            literal("+" + std::string(1, char(i)));
        }
    }
    literal(pre);
    for (char a : al)
    {
        literal(pre + a);
        for (char b : al)
            literal(pre + a + b);
    }
}
SUITE(literals_random, 12000, 300000)
{
    std::string s = rng.of<std::string>({"", "", "+", "-"}) + std::string(rng.chance(1, 3) ? rng.range(0, 12) : 0, '0') + gen_digits(rng, 80);
    if (rng.chance(1, 2)) // mutate
    {
        for (int k = rng.range(1, 2); k > 0; --k)
        {
            const char c = rng.chance(1, 2) ? char(rng.range(1, 255)) : rng.of<char>({'+', '-', ' ', '.', '0', '9', '/', ':', 'a', 'e', '\n', '\t'});
            const int pos = rng.chance(1, 3) ? (rng.chance(1, 2) ? 0 : int(s.size())) : int(rng.range(0, s.size()));
            switch (rng.range(0, 2))
            {
                case 0: s.insert(s.begin() + pos, c); break;
                case 1:
                    if (pos < int(s.size()))
                        s[pos] = c;
                    break;
                default:
                    if (pos < int(s.size()))
                        s.erase(pos, 1);
            }
        }
    }
    literal(s);
}
SUITE(leading_zeros, 200, 2000)
{
    // zeros in front never change the value, minus zero is zero
    const std::string d = gen_digits(rng, 30), z(rng.range(0, 40), '0');
    for (const char* sg : {"", "+", "-"})
        literal(sg + z + d);
    for (int n = 1; n < 5; ++n)
        for (const char* sg : {"", "+", "-"})
            literal(sg + std::string(n, '0'));
}
SUITE(machine_ints, 2000, 20000)
{
    if (idx < 40)
        for (int i = 0; i < 60; ++i)
        {
            machine(INT_MIN + int(idx) * 60 + i);
            machine(INT_MAX - int(idx) * 60 - i);
            machine(int(idx) * 60 + i);
            machine(-int(idx) * 60 - i);
        }
    for (int i = 0; i < 12; ++i)
        machine(int(rng.range(INT_MIN, INT_MAX) >> rng.range(0, 28)));
    long long p = 1;
    for (int k = 0; k < 10; ++k, p *= 10)
    {
        if (idx % 8 == 0)
            for (int d = -2; d <= 2; ++d)
                machine(int(p + d)), machine(int(-p + d));
    }
}
SUITE(native_types, 60, 1000)
{
    to_native<signed char>("signed char", rng);
    to_native<unsigned char>("unsigned char", rng);
    to_native<short>("short", rng);
    to_native<unsigned short>("unsigned short", rng);
    to_native<int>("int", rng);
    to_native<unsigned>("unsigned", rng);
    to_native<long>("long", rng);
    to_native<unsigned long>("unsigned long", rng);
    to_native<long long>("long long", rng);
    to_native<unsigned long long>("unsigned long long", rng);
    const __int128 lo = __int128(1) << 127 >> 0; // the minimum, by bit pattern
    const __int128 hi = ~lo;
    for (int i = 0; i < 6; ++i)
    {
        to_t<__int128>("int128", lo + i, s128(lo + i));
        to_t<__int128>("int128", hi - i, s128(hi - i));
        const unsigned __int128 u = ((unsigned __int128)rng.next() << 64 | rng.next()) >> rng.range(0, 127);
        to_t<unsigned __int128>("uint128", u, u128(u));
        to_t<unsigned __int128>("uint128", ~(unsigned __int128)i, u128(~(unsigned __int128)i));
        const __int128 v = __int128(u >> 1);
        to_t<__int128>("int128", -v, s128(-v));
    }
}
SUITE(custom_types, 1500, 30000)
{
    const std::string s = gen_int(rng, 120);
    to_t<Big>("cpp_int", big(s), s);
    to_t<Int>("Int", mk(s), s);
    const Int x = mk(s);
    check_int(x.to_integer<Int>(), big(s), "int-to-integer<Int>", s);
}
SUITE(print_reread, 4000, 80000)
{
    const std::string s = gen_int(rng, rng.chance(1, 20) ? 900 : 60);
    const Int x = mk(s);
    OP("print/re-read");
    NOTE(s);
    check_int(x, big(s), "int-print", s);
    const Int y = Int(text(x).c_str());
    EXPECT(x == y, "int-reread", full(s) << " re-read from its text is " << full(text(y)));
    std::stringstream io;
    io << x << ' ' << -x << '\n' << x;
    Int a = 5, b = 6, c = 7;
    io >> a >> b >> c;
    EXPECT(a == x && b == -x && c == x, "int-reread-stream", full(s) << " re-read from a stream is " << full(text(a)) << " " << full(text(b)) << " " << full(text(c)));
    mon::evaluated(2);
    mon::nontrivial(hash2("reread", s, ""));
}
SUITE(queries, 6000, 100000)
{
    const std::string s = rng.chance(1, 5) ? rng.pick(boundary_ints(22)) : gen_int(rng, 60);
    OP("queries");
    check_int(mk(s), big(s), "int-query", s);
    // the same value reached by arithmetic
    Int x = mk(s);
    const Int k = mk(gen_int(rng, 60));
    x += k;
    x -= k;
    check_int(x, big(s), "int-query", "(x + k) - k, x=" + s + " k=" + text(k));
    mon::evaluated(2);
    mon::nontrivial(hash2("query", s, ""));
}
SUITE(randoms, 200, 2000)
{
    for (int k : {0, 1, 2, int(rng.range(0, 60)), int(rng.range(0, 300))})
    {
        OP("random(k)");
        NOTE("random(" << k << ")");
        const Int x = Int::random(k);
        EXPECT(!x.is_negative(), "int-random-sign", "random(" << k << ") is " << text(x));
        EXPECT(x.digits() == k, "int-random-digits", "random(" << k << ") has " << x.digits() << " digits");
        const std::string t = text(x);
        EXPECT(k == 0 ? t == "0" : (int(t.size()) == k && t[0] != '0'), "int-random-digits", "random(" << k << ") prints as " << full(t));
        check_int(x, big(t), "int-random", "random(" + std::to_string(k) + ")");
        mon::evaluated();
        mon::nontrivial(hash2("random", t, ""));
    }
    if (idx % 4 == 0)
    {
        OP("random()");
        const Int x = Int::random();
        EXPECT(!x.is_negative() && x.digits() <= 4300, "int-random-default", "random() has " << x.digits() << " digits");
        const std::string t = text(x);
        EXPECT(x.digits() == 0 ? t == "0" : (int(t.size()) == x.digits() && t[0] != '0'), "int-random-default", "random() prints " << t.size() << " characters for " << x.digits() << " digits");
        check_int(x, big(t), "int-random", "random()");
        mon::evaluated();
    }
    OP("random(-k)");
    const int bad = rng.chance(1, 3) ? INT_MIN : -int(rng.range(2, 1000));
    const auto o = mon::attempt([&] { mon::keep(Int::random(bad)); });
    EXPECT(o == mon::Out::runtime_error, "int-random-negative", "random(" << bad << "): " << name(o));
}
SUITE(random_fresh, 1, 4)
{
    // long random numbers are not repeated
    std::vector<std::string> v;
    for (int i = 0; i < 60; ++i)
    {
        OP("random(k) fresh");
        v.push_back(text(Int::random(40)));
    }
    std::sort(v.begin(), v.end());
    EXPECT(std::unique(v.begin(), v.end()) == v.end(), "int-random-repeats", "two of 60 random(40) are equal");
    mon::evaluated(60);
}
// texts and numbers of thousands of digits
SUITE(long_texts, 60, 1000)
{
    const int n = int(rng.range(300, idx % 20 == 0 ? 70000 : idx % 6 == 0 ? 12000 : 4500));
    std::string d = rng.of<std::string>({"1", "9", "5"});
    const int kind = int(rng.range(0, 3));
    while (int(d.size()) < n)
        d += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
    const std::string s = rng.of<std::string>({"", "+", "-"}) + std::string(rng.chance(1, 2) ? std::size_t(rng.range(0, 3000)) : 0, '0') + d;
    literal(s);
    std::string bad = s;
    bad[std::size_t(rng.range(1, (long long)bad.size() - 1))] = rng.of<char>({' ', '-', '/', ':', 'a', '.'});
    literal(bad);
    if (n < 15000)
        check_int(mk(s), big(s), "int-print", s);
    const int k = int(rng.range(300, idx % 20 == 0 ? 70000 : 6000));
    OP("random(k)");
    const Int x = Int::random(k);
    const std::string t = text(x);
    EXPECT(!x.is_negative() && x.digits() == k && int(t.size()) == k && t[0] != '0', "int-random-digits", "random(" << k << ") has " << x.digits() << " digits and prints as " << t.size() << " characters");
    EXPECT(mk(t) == x, "int-reread", "random(" << k << ") re-read from its text differs");
    mon::evaluated(2);
    mon::nontrivial(hash2("random", t, ""));
}
