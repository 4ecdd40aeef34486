#include "fracx.hpp"
#include "intx.hpp"
#include "list.hpp"
#include "deque.hpp"
#include "strx.hpp"
#include <algorithm>
#include <compare>
using pyincpp::Deque;
using pyincpp::List;

namespace
{
// the six operators against the expected sign of a - b
template <typename T>
void six(const char* key, const T& a, const T& b, int want, const std::string& ctx)
{
    NOTE(ctx);
    const bool r[6] = {a < b, a <= b, a == b, a >= b, a > b, a != b};
    const bool w[6] = {want < 0, want <= 0, want == 0, want >= 0, want > 0, want != 0};
    for (int i = 0; i < 6; ++i)
    {
        static const char* n[] = {"<", "<=", "==", ">=", ">", "!="};
        EXPECT(r[i] == w[i], std::string(key) + ":" + n[i], ctx << ": a " << n[i] << " b is " << r[i] << ", expected order sign " << want);
    }
    const auto c = a <=> b;
    EXPECT((c < 0) == (want < 0) && (c > 0) == (want > 0) && (c == 0) == (want == 0), std::string(key) + ":<=>", ctx << ": a <=> b disagrees, expected sign " << want);
    mon::evaluated(7);
}
template <typename T>
void both(const char* key, const T& a, const T& b, int want, const std::string& ctx)
{
    six(key, a, b, want, ctx);
    six(key, b, a, -want, "(swapped) " + ctx);
}
int sign(const Big& b)
{
    return b.sign();
}
int scmp(const std::string& a, const std::string& b) // bytes as unsigned
{
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
    {
        const unsigned char x = a[i], y = b[i];
        if (x != y)
            return x < y ? -1 : 1;
    }
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
template <typename V, typename F>
int lcmp(const V& a, const V& b, F el)
{
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (int c = el(a[i], b[i]))
            return c;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
int icmp(int a, int b)
{
    return a < b ? -1 : a > b;
}
void int_pair(const std::string& a, const std::string& b)
{
    OP("Int compare");
    both("int-order", mk(a), mk(b), sign(big(a) - big(b)), full(a) + " vs " + full(b));
    mon::nontrivial(hash2("int", a, b));
    SAMPLE("int", brief(a) << " vs " << brief(b));
}
void frac_pair(const Fraction& x, const Fraction& y)
{
    OP("Fraction compare");
    const Q a = q_of(x), b = q_of(y);
    const i128 d = a.n * b.d - b.n * a.d;
    both("fraction-order", x, y, d < 0 ? -1 : d > 0, fs(x) + " vs " + fs(y));
    mon::nontrivial(hash2("frac", fs(x), fs(y)));
    SAMPLE("fraction", fs(x) << " vs " << fs(y));
}
void str_pair(const std::string& a, const std::string& b)
{
    OP("Str compare");
    both("str-order", Str(a), Str(b), scmp(a, b), mon::esc(a) + " vs " + mon::esc(b));
    mon::nontrivial(hash2("str", a, b));
    SAMPLE("str", mon::esc(a) << " vs " << mon::esc(b));
}
std::vector<int> gen_vec(Rng& r, int maxlen, int vals)
{
    std::vector<int> v(r.chance(1, 8) ? 0 : r.range(1, maxlen));
    for (auto& x : v)
        x = r.range(-vals, vals);
    return v;
}
std::string vs(const std::vector<int>& v)
{
    std::string s = "[";
    for (int x : v)
        s += std::to_string(x) + ",";
    return s + "]";
}
std::vector<int> mutate(Rng& r, std::vector<int> v)
{
    switch (r.range(0, 4))
    {
        case 0: break;
        case 1: v.push_back(r.range(-3, 3)); break;
        case 2:
            if (!v.empty())
                v.pop_back();
            break;
        case 3:
            if (!v.empty())
                v[r.range(0, v.size() - 1)] += r.of<int>({-1, 1});
            break;
        default:
            if (!v.empty())
                v.erase(v.begin());
    }
    return v;
}
void seq_pair(const std::vector<int>& a, const std::vector<int>& b)
{
    const int w = lcmp(a, b, icmp);
    const std::string ctx = vs(a) + " vs " + vs(b);
    OP("List compare");
    both("list-order", List<int>(a), List<int>(b), w, ctx);
    OP("Deque compare");
    both("deque-order", Deque<int>(a.begin(), a.end()), Deque<int>(b.begin(), b.end()), w, ctx);
    mon::nontrivial(hash2("seq", vs(a), vs(b)));
    SAMPLE("sequence", ctx);
}
} // namespace

SUITE(int_small, 121, 601)
{
    const int R = mon::thorough ? 300 : 60;
    for (int b = -R; b <= R; ++b)
        int_pair(std::to_string(int(idx) - R), std::to_string(b));
}
SUITE(int_boundary, 400, 400)
{
    const auto& v = boundary_ints(22);
    if (idx < v.size())
        for (const auto& b : v)
            int_pair(v[idx], b);
}
SUITE(int_random, 12000, 300000)
{
    const std::string a = gen_int(rng, 80);
    int_pair(a, rng.chance(2, 3) ? related(rng, a, 80) : gen_int(rng, 80));
}
// one digit apart, at every position, both signs
SUITE(int_one_digit, 600, 10000)
{
    std::string a = gen_digits(rng, 60);
    if (a == "0")
        return;
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        std::string b = a;
        b[i] = a[i] == '9' ? '8' : a[i] + 1;
        if (b[0] == '0')
            continue;
        int_pair(a, b);
        int_pair("-" + a, "-" + b);
    }
    int_pair(a, "-" + a);
}
// equal however computed
SUITE(int_routes, 3000, 60000)
{
    const std::string s = gen_int(rng, 50);
    const Int x = mk(s);
    const Int k = mk(gen_digits(rng, 50)) + 1;
    OP("Int equal routes");
    const std::pair<const char*, Int> r[] = {
        {"x+k-k", x + k - k}, {"x-k+k", x - k + k}, {"x*k/k", x * k / k}, {"-(-x)", -(-x)}, {"(x*k+0)/k", (x * k + 0) / k},
        {"x/k*k+x%k", x / k * k + x % k}, {"literal with zeros", Int(((s[0] == '-' ? "-" : "+") + std::string(3, '0') + (s[0] == '-' ? s.substr(1) : s)).c_str())},
        {"++ and --", [&] { Int t = x; ++t; --t; return t; }()}, {"-- and ++", [&] { Int t = x; --t; ++t; return t; }()},
        {"x-0", x - 0}, {"x*1", x * 1}, {"x*-1*-1", x * -1 * -1}, {"x/1", x / 1}, {"x/-1/-1", x / -1 / -1}, {"to_integer<Int>", x.to_integer<Int>()},
        {"moved", [&] { Int t = x; Int u = std::move(t); return u; }()}};
    for (auto& [n, v] : r)
        both("int-equal-routes", x, v, 0, s + " against " + n + ", k=" + text(k));
    // zero reached in different ways
    const Int z = x - x;
    both("int-zero-routes", z, Int(0), 0, "x-x");
    both("int-zero-routes", z, Int("-0"), 0, "x-x against -0");
    both("int-zero-routes", x * 0, -(z), 0, "x*0 against -(x-x)");
    both("int-zero-routes", Int(0) % k, Int("+000"), 0, "0%k");
    both("int-zero-routes", x, z, sign(big(s)), "x against x-x");
    mon::nontrivial(hash2("routes", s, text(k)));
}
SUITE(int_sort, 300, 4000)
{
    // a sort with the library's operators gives the numeric order
    std::vector<std::string> s;
    for (int i = 0; i < 40; ++i)
        s.push_back(s.empty() || rng.chance(1, 2) ? gen_int(rng, 30) : related(rng, rng.pick(s), 30));
    std::vector<Int> v;
    for (auto& x : s)
        v.push_back(mk(x));
    OP("Int sort");
    std::sort(v.begin(), v.end());
    std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return big(a) < big(b); });
    for (std::size_t i = 0; i < v.size(); ++i)
        EXPECT(text(v[i]) == big(s[i]).str(), "int-sort", "position " << i << " holds " << text(v[i]) << " want " << s[i]);
    mon::evaluated(v.size());
}
SUITE(fraction_small, 300, 2000)
{
    const int R = mon::thorough ? 16 : 9;
    const int n = int(idx % (2 * R + 1)) - R, d = 1 + int(idx / (2 * R + 1));
    if (d > R)
        return;
    for (int c = -R; c <= R; ++c)
        for (int e = 1; e <= R; ++e)
            frac_pair(Fraction(n, d), Fraction(c, e));
}
SUITE(fraction_random, 60000, 1000000)
{
    const auto [n, d] = gen_raw(rng);
    const auto [m, e] = gen_raw(rng);
    Fraction x(n, d), y(m, e);
    if (rng.chance(1, 2)) // neighbours: differences far below what a double shows
    {
        long long p = x.numerator() + rng.range(-1, 1), q = x.denominator() + rng.range(-1, 1);
        if (p >= INT_MIN && p <= INT_MAX && q >= 1 && q <= INT_MAX)
            y = Fraction(int(p), int(q));
    }
    if (rng.chance(1, 12))
        y = x;
    frac_pair(x, y);
}
SUITE(fraction_extremes, 400, 1000)
{
    static const int v[] = {INT_MIN, INT_MIN + 1, INT_MIN + 2, -1073741824, -46341, -3, -2, -1, 0, 1, 2, 3, 46341, 1073741823, 1073741824, INT_MAX - 2, INT_MAX - 1, INT_MAX};
    static const int w[] = {1, 2, 3, 46340, 46341, 65536, 1073741823, 1073741824, INT_MAX - 2, INT_MAX - 1, INT_MAX};
    constexpr int K = std::size(v), L = std::size(w);
    if (idx >= K * L)
        return;
    const Fraction x(v[idx / L], w[idx % L]);
    for (int m : v)
        for (int e : w)
            frac_pair(x, Fraction(m, e));
}
SUITE(fraction_routes, 6000, 100000)
{
    const int n = rng.range(-3000, 3000), d = rng.range(1, 3000), k = rng.range(1, 700) * (rng.chance(1, 2) ? 1 : -1);
    const Fraction x(n, d), y(rng.range(-90, 90), rng.range(1, 90));
    OP("Fraction equal routes");
    both("fraction-equal-routes", x, Fraction(n * k, d * k), 0, fs(x) + " scaled");
    both("fraction-equal-routes", x, x + y - y, 0, fs(x) + " + y - y, y=" + fs(y));
    both("fraction-equal-routes", x, -(-x), 0, fs(x));
    if (y.numerator() != 0)
        both("fraction-equal-routes", x, x * y / y, 0, fs(x) + " * y / y, y=" + fs(y));
    mon::nontrivial(hash2("froutes", fs(x), fs(y)));
}
SUITE(str_bytes, 256, 256)
{
    for (int b = 0; b < 256; ++b)
    {
        str_pair(std::string(1, char(idx)), std::string(1, char(b)));
        if (b % 16 == int(idx) % 16)
            str_pair("ab" + std::string(1, char(idx)) + "z", "ab" + std::string(1, char(b)) + "a");
    }
}
SUITE(str_short, 121, 121)
{
    // all pairs of strings up to length 4 over {a, b, \xff}... plus embedded NUL
    static std::vector<std::string> v;
    if (v.empty())
    {
        v.push_back("");
        for (std::size_t i = 0; i < v.size() && v[i].size() < 4; ++i)
            for (char c : {'a', '\0', '\xff'})
                v.push_back(v[i] + c);
    }
    if (idx < v.size())
        for (auto& b : v)
            str_pair(v[idx], b);
}
SUITE(str_random, 20000, 400000)
{
    const std::string a = gen_bytes(rng, 40);
    std::string b = a;
    switch (rng.range(0, 4))
    {
        case 0: b = gen_bytes(rng, 40); break;
        case 1: b += char(rng.range(0, 255)); break;
        case 2:
            if (!b.empty())
                b[rng.range(0, b.size() - 1)] = char(rng.range(0, 255));
            break;
        case 3: b = a.substr(0, rng.range(0, a.size())); break;
    }
    str_pair(a, b);
    OP("Str equal routes");
    const std::size_t c = rng.range(0, a.size());
    both("str-equal-routes", Str(a), Str(a.substr(0, c)) + Str(a.substr(c)), 0, mon::esc(a) + " concatenated");
    both("str-equal-routes", Str(a), Str(a).reverse().reverse(), 0, mon::esc(a) + " reversed twice");
}
SUITE(seq_exhaustive, 121, 400)
{
    static std::vector<std::vector<int>> v;
    if (v.empty())
    {
        v.push_back({});
        for (std::size_t i = 0; i < v.size() && v[i].size() < 4; ++i)
            for (int c : {-1, 0, 2})
            {
                auto w = v[i];
                w.push_back(c);
                v.push_back(w);
            }
    }
    if (idx < v.size())
        for (auto& b : v)
            seq_pair(v[idx], b);
}
SUITE(seq_random, 10000, 200000)
{
    const bool lng = rng.chance(1, 20);
    const auto a = gen_vec(rng, lng ? 300 : 12, lng ? 2 : 100);
    seq_pair(a, rng.chance(2, 3) ? mutate(rng, a) : gen_vec(rng, 12, 100));
}
SUITE(seq_of_objects, 4000, 80000)
{
    // lists of Str, of Int and of lists, Deque of Str
    std::vector<std::string> a, b;
    for (int i = rng.range(0, 5); i > 0; --i)
        a.push_back(gen_bytes(rng, 3));
    b = a;
    if (rng.chance(2, 3))
    {
        if (!b.empty() && rng.chance(1, 2))
            b[rng.range(0, b.size() - 1)] = gen_bytes(rng, 3);
        else if (rng.chance(1, 2))
            b.push_back(gen_bytes(rng, 2));
        else if (!b.empty())
            b.pop_back();
    }
    std::string ctx;
    for (auto& s : a)
        ctx += mon::esc(s) + " ";
    ctx += "vs ";
    for (auto& s : b)
        ctx += mon::esc(s) + " ";
    std::vector<Str> sa(a.begin(), a.end()), sb(b.begin(), b.end());
    OP("List<Str> compare");
    const int w = lcmp(a, b, scmp);
    both("list-str-order", List<Str>(sa), List<Str>(sb), w, ctx);
    OP("Deque<Str> compare");
    both("deque-str-order", Deque<Str>(sa.begin(), sa.end()), Deque<Str>(sb.begin(), sb.end()), w, ctx);
    std::vector<std::vector<int>> p(rng.range(0, 4));
    for (auto& v : p)
        v = gen_vec(rng, 3, 1);
    auto q = p;
    if (!q.empty() && rng.chance(2, 3))
        q[rng.range(0, q.size() - 1)] = mutate(rng, q[0]);
    List<List<int>> lp, lq;
    std::string c2;
    for (auto& v : p)
        lp += List<int>(v), c2 += vs(v);
    c2 += " vs ";
    for (auto& v : q)
        lq += List<int>(v), c2 += vs(v);
    OP("List<List<int>> compare");
    both("list-list-order", lp, lq, lcmp(p, q, [](auto& x, auto& y) { return lcmp(x, y, icmp); }), c2);
    mon::nontrivial(hash2("objs", ctx, c2));
}
// equal content through different histories compares equal
SUITE(seq_routes, 3000, 60000)
{
    const auto v = gen_vec(rng, 20, 50);
    List<int> a(v), b;
    Deque<int> c(v.begin(), v.end()), d;
    for (int i = int(v.size()) - 1; i >= 0; --i)
        b.insert(0, v[i]), d.push_front(v[i]);
    b += 7, b.remove(-1);
    d.push_back(7), d.pop_back();
    d >>= 3, d <<= 3;
    OP("equal routes");
    both("list-equal-routes", a, b, 0, vs(v));
    both("deque-equal-routes", c, d, 0, vs(v));
    b.clear(), d.clear();
    both("list-equal-routes", List<int>(), b, 0, "cleared");
    both("deque-equal-routes", Deque<int>(), d, 0, "cleared");
    mon::nontrivial(hash2("sroutes", vs(v), ""));
}
// tens of thousands of digits, elements and characters that differ in one place
SUITE(very_long, 12, 200)
{
    const int n = rng.range(32000, 140000), at = rng.chance(1, 3) ? n - 1 : rng.chance(1, 2) ? int(rng.range(0, n - 1)) : int(rng.range(0, 9));
    std::string a(n, '7');
    for (int i = 0; i < 50; ++i)
        a[rng.range(0, n - 1)] = char('1' + rng.range(0, 8));
    std::string b = a;
    int want = 0;
    switch (rng.range(0, 3))
    {
        case 0: b[at] = a[at] == '9' ? '8' : a[at] + 1; want = a[at] == '9' ? 1 : -1; break;
        case 1: b.resize(at + 1); want = at + 1 == n ? 0 : 1; break;
        case 2: b += "0"; want = -1; break;
        default:;
    }
    const std::string ctx = "length " + std::to_string(n) + ", different at " + std::to_string(at) + ", second one of length " + std::to_string(b.size());
    NOTE(ctx);
    OP("very long");
    both("int-order", mk(a), mk(b), want, ctx);
    both("int-order", mk("-" + a), mk("-" + b), -want, ctx);
    both("int-order", mk("-" + a), mk(b), -1, ctx);
    both("str-order", Str(a), Str(b), want, ctx);
    both("seq-order:List<char>", List<char>(a.begin(), a.end()), List<char>(b.begin(), b.end()), want, ctx);
    both("seq-order:Deque<int>", Deque<int>(a.begin(), a.end()), Deque<int>(b.begin(), b.end()), want, ctx);
    mon::nontrivial(hash2("very long", a, b));
}
// every length, two or more differences: the first of them decides
SUITE(every_length, 300, 900)
{
    for (int n = 4 * int(idx) + 1; n <= 4 * int(idx) + 4; ++n)
    {
        std::string a(n, '5');
        const int kind = rng.range(0, 3);
        for (char& c : a)
            c = kind == 0 ? '5' : kind == 1 ? char('1' + rng.range(0, 7)) : rng.chance(1, 9) ? '8' : kind == 2 ? '1' : '4';
        std::vector<int> at{0, 1, n / 2, n - 2, n - 1, int(rng.range(0, n - 1)), int(rng.range(0, n - 1)), int(rng.range(0, n - 1)), 8 * int(rng.range(0, n / 8)), 9 * int(rng.range(0, n / 9))};
        for (int i : at)
        {
            if (i < 0 || i >= n)
                continue;
            std::string b = a;
            const int up = rng.chance(1, 2) ? 1 : -1;
            b[i] = char(a[i] + up);
            for (int k = rng.range(1, 3); k > 0; --k) // later ones the other way
            {
                const int j = rng.chance(1, 2) ? i + int(rng.range(1, 12)) : n - 1 - int(rng.range(0, 12));
                if (j > i && j < n)
                    b[j] = char(a[j] - up);
            }
            if (b[0] == '0')
                b[0] = '9';
            const int w = scmp(a, b);
            int_pair(a, b);
            int_pair("-" + a, "-" + b);
            str_pair(a, b);
            std::string c = a, d = b; // bytes, signs and all
            for (std::size_t j = 0; j < c.size(); ++j)
            {
                const int m = kind * 0x2b;
                c[j] = char(c[j] * 7 + m), d[j] = char(d[j] * 7 + m);
            }
            str_pair(c, d);
            str_pair(a, b.substr(0, rng.range(0, n)));
            str_pair(a, a + b[i]);
            OP("every length");
            const std::string ctx = "length " + std::to_string(n) + " first difference at " + std::to_string(i);
            both("list-order", List<int>(a.begin(), a.end()), List<int>(b.begin(), b.end()), w, ctx);
            both("deque-order", Deque<int>(a.begin(), a.end()), Deque<int>(b.begin(), b.end()), w, ctx);
            both("seq-order:List<char>", List<char>(a.begin(), a.end()), List<char>(b.begin(), b.end()), w, ctx);
            both("list-order", List<int>(a.begin(), a.end()), List<int>(a.begin(), a.begin() + i), 1, ctx);
            both("deque-order", Deque<int>(a.begin(), a.end()), Deque<int>(a.begin(), a.begin() + i), 1, ctx);
        }
        both("list-order", List<int>(a.begin(), a.end()), List<int>(a.begin(), a.end()), 0, "equal");
        both("deque-order", Deque<int>(a.begin(), a.end()), Deque<int>(a.begin(), a.end()), 0, "equal");
        str_pair(a, a);
        int_pair(a, a);
    }
}
