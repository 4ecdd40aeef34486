#include "fracx.hpp"
#include "intx.hpp"
#include "complex.hpp"
#include "strx.hpp"
#include <unordered_map>
#include <unordered_set>
using pyincpp::Complex;

namespace
{
template <typename T>
std::size_t H(const T& v)
{
    return std::hash<T>{}(v);
}
template <typename T>
void equal_hash(const char* key, const T& a, const T& b, const std::string& ctx)
{
    NOTE(ctx);
    EXPECT(a == b, std::string(key) + ":not-equal", ctx << ": the two routes do not compare equal");
    EXPECT(H(a) == H(b), key, ctx << ": equal values hash to " << H(a) << " and " << H(b));
    EXPECT(H(a) == H(a), std::string(key) + ":unstable", ctx << ": hash changes between calls");
    std::unordered_set<T> s;
    s.insert(a);
    s.insert(b);
    EXPECT(s.size() == 1 && s.count(a) == 1 && s.count(b) == 1, std::string(key) + ":unordered-set", ctx << ": an unordered_set holds " << s.size() << " copies");
    mon::evaluated();
}
std::string cs(const Complex& c)
{
    std::ostringstream o;
    o.precision(17);
    o << "(" << c.real() << ", " << c.imag() << ")";
    return o.str();
}
} // namespace

SUITE(int_routes, 5000, 120000)
{
    const std::string s = gen_int(rng, rng.chance(1, 10) ? 200 : 50);
    const Int x = mk(s), k = mk(gen_digits(rng, 40)) + 1;
    const std::string mag = s[0] == '-' ? s.substr(1) : s;
    OP("Int hash routes");
    auto eq = [&](const char* how, const Int& v)
    { equal_hash("int-hash", x, v, full(s) + " by " + how + ", k=" + full(text(k))); };
    eq("copy", Int(x));
    eq("x+k-k", x + k - k);
    eq("x-k+k", x - k + k);
    eq("x*k/k", x * k / k);
    eq("recomposed", x / k * k + x % k);
    eq("double negation", -(-x));
    eq("leading zeros", Int(((s[0] == '-' ? "-" : "+") + std::string(rng.range(1, 9), '0') + mag).c_str()));
    eq("++/--", [&] { Int t = x; ++t, --t; return t; }());
    eq("--/++", [&] { Int t = x; --t, ++t; return t; }());
    eq("x/1", x / 1);
    eq("x*1", x * 1);
    eq("assignment", [&] { Int t = k; t = x; return t; }());
    eq("assignment to a longer one", [&] { Int t = Int(("1" + std::string(s.size() + 900, '0')).c_str()); t = x; return t; }());
    eq(">> to a longer one", [&] { Int t = Int(("1" + std::string(s.size() + 900, '0')).c_str()); std::istringstream i(s); i >> t; return t; }());
    eq("subtraction that shortens", [&] { Int t = Int(("1" + std::string(s.size() + 40, '0')).c_str()); t += x; t -= Int(("1" + std::string(s.size() + 40, '0')).c_str()); return t; }());
    eq("move", [&] { Int t = x; Int u = k; u = std::move(t); return u; }());
    eq("stream", [&] { std::istringstream i(s); Int t; i >> t; return t; }());
    eq("to_integer<Int>", x.to_integer<Int>());
    eq("x % (|x|+k)", x % (x.abs() + k));
    if (!x.is_negative())
    {
        eq("sqrt(x*x)", Int::sqrt(x * x));
        eq("abs", (-x).abs());
        eq("gcd(x, 0)", Int::gcd(x, 0));
        eq("pow 1", Int::pow(x, 1));
        if (!x.is_zero())
            eq("lcm(x, 1)", Int::lcm(x, 1));
    }
    for (const Int& z : {x - x, x * 0, Int("-0"), Int("+00"), x / (x.abs() + 1), Int(0) % k, -(x - x), k % k, [&] { Int t = x; Int u = std::move(t); return t; }(), Int::random(0)})
        equal_hash("int-hash", Int(), z, "zero by another route, x=" + full(s) + " k=" + full(text(k)));
    mon::nontrivial(hash2("int", s, text(k)));
    SAMPLE("int", brief(s) << " by 20 routes, hash " << H(x));
}
// lengths beyond any that is treated specially, by the routes that are cheap
SUITE(int_long, 60, 1500)
{
    const int n = int(rng.range(200, idx % 4 ? 6000 : 30000));
    std::string mag = gen_digits(rng, n);
    mag = std::string(1, char('1' + rng.range(0, 8))) + std::string(n - std::min<int>(n, mag.size()), rng.of<char>({'0', '9', '7'})) + mag;
    const std::string s = (rng.chance(1, 2) ? "-" : "") + mag;
    const Int x = mk(s), k = mk(gen_digits(rng, n + 5)) + 1;
    OP("Int hash long");
    auto eq = [&](const char* how, const Int& v)
    { equal_hash("int-hash", x, v, std::to_string(n) + " digits, by " + how); };
    eq("copy", Int(x));
    eq("x+k-k", x + k - k);
    eq("x-k+k", x - k + k);
    eq("double negation", -(-x));
    eq("leading zeros", Int(((s[0] == '-' ? "-" : "+") + std::string(rng.range(1, 9000), '0') + mag).c_str()));
    eq("++/--", [&] { Int t = x; ++t, --t; return t; }());
    eq("--/++", [&] { Int t = x; --t, ++t; return t; }());
    eq("*1", x * 1);
    eq("assignment", [&] { Int t = k; t = x; return t; }());
    eq("assignment to a longer one", [&] { Int t = Int(("1" + std::string(s.size() + 900, '0')).c_str()); t = x; return t; }());
    eq(">> to a longer one", [&] { Int t = Int(("1" + std::string(s.size() + 900, '0')).c_str()); std::istringstream i(s); i >> t; return t; }());
    eq("subtraction that shortens", [&] { Int t = Int(("1" + std::string(s.size() + 40, '0')).c_str()); t += x; t -= Int(("1" + std::string(s.size() + 40, '0')).c_str()); return t; }());
    eq("assignment to a shorter one", [&] { Int t; t = x; return t; }());
    eq("move", [&] { Int t = x; Int u = k; u = std::move(t); return u; }());
    eq("stream", [&] { std::istringstream i(s); Int t; i >> t; return t; }());
    eq("halves", [&] { Int t = x + x; return t - x; }());
    eq("parts", mk(s.substr(0, s.size() - 100) + std::string(100, '0')) + mk((s[0] == '-' ? "-" : "") + s.substr(s.size() - 100)));
    eq("x % k", x % (x.abs() + 1));
    for (const Int& z : {x - x, x * 0, x / (x.abs() + 1), -(x - x), [&] { Int t = x; Int u = std::move(t); return t; }()})
        equal_hash("int-hash", Int(), z, "zero from " + std::to_string(n) + " digits");
    mon::nontrivial(hash2("int", s, text(k)));
}
SUITE(str_long, 60, 1500)
{
    const std::string a = gen_bytes(rng, 100) + std::string(rng.range(0, idx % 4 ? 3000 : 200000), char(rng.range(0, 255))) + gen_bytes(rng, 100);
    const Str x(a);
    OP("Str hash long");
    auto eq = [&](const char* how, const Str& v)
    { equal_hash("str-hash", x, v, std::to_string(a.size()) + " bytes, by " + how); };
    const std::size_t c = rng.range(0, a.size());
    eq("copy", Str(x));
    eq("concatenation", Str(a.substr(0, c)) + Str(a.substr(c)));
    eq("reverse twice", x.reverse().reverse());
    eq("rotation", (x << int(c)) >> int(c));
    eq("join", Str("").join({Str(a.substr(0, c)), Str(a.substr(c))}));
    eq("erase", (x + Str("xyz")).erase(int(a.size()), int(a.size()) + 3));
    eq("assignment", [&] { Str t("zzz"); t = x; return t; }());
    eq("move", [&] { Str t(x); Str u("w"); u = std::move(t); return u; }());
    // in objects that held something longer before, whose buffers stay
    for (const std::size_t more : {1, 20, 300, 5000})
    {
        Str used(std::string(a.size() + more, 'x'));
        used = x;
        equal_hash("str-hash", x, used, std::to_string(a.size()) + " bytes, by assignment to a string of " + std::to_string(more) + " more");
        equal_hash("str-hash", x, Str(std::move(used)), std::to_string(a.size()) + " bytes, by moving a string that was longer by " + std::to_string(more));
        if (a.find('\n') == std::string::npos)
        {
            std::istringstream in(a + "\n");
            Str line(std::string(a.size() + more, 'x'));
            in >> line;
            equal_hash("str-hash", x, line, std::to_string(a.size()) + " bytes, by >> to a string of " + std::to_string(more) + " more");
        }
        std::unordered_set<Str> found;
        found.insert(x);
        Str again(std::string(a.size() + more, 'y'));
        again = Str(a);
        EXPECT(found.count(again) == 1, "str-unordered-lookup", a.size() << " bytes: not found by an equal key that was longer before");
    }
    mon::nontrivial(hash2("str", a, ""));
}
SUITE(int_small, 40, 400)
{
    for (int i = -25; i < 25; ++i)
    {
        const int v = idx < 20 ? int(idx) * 50 + i : int(rng.range(INT_MIN, INT_MAX));
        OP("Int hash int");
        equal_hash("int-hash", Int(v), Int(std::to_string(v).c_str()), "Int(int) and Int(literal) of " + std::to_string(v));
    }
}
SUITE(int_unordered, 60, 800)
{
    std::unordered_set<Int> s;
    std::unordered_map<Int, int> mp;
    std::vector<Big> model;
    for (int i = 0; i < 200; ++i)
    {
        const Big b = big(gen_int(rng, rng.chance(1, 2) ? 3 : 20));
        const bool fresh = std::find(model.begin(), model.end(), b) == model.end();
        OP("unordered_set<Int>");
        const Int k = mk(gen_int(rng, 20));
        EXPECT(s.insert(mk(b) + k - k).second == fresh, "int-unordered-insert", "insert of " << b.str() << " fresh=" << fresh);
        if (fresh)
            model.push_back(b);
        mp[mk(b)] = i;
        EXPECT(mp.at(mk(b) * 1) == i, "int-unordered-lookup", b.str());
        EXPECT(s.size() == model.size() && mp.size() == model.size(), "int-unordered-size", s.size() << " for " << model.size() << " values");
        mon::evaluated(3);
    }
    for (auto& b : model)
        EXPECT(s.count(mk(b)) == 1 && s.count(-mk(-b)) == 1, "int-unordered-lookup", b.str() << " is not found");
    mon::nontrivial(mon::hash_mix(5, idx));
    SAMPLE("unordered_set", model.size() << " distinct Int of 200 inserted");
}
SUITE(fraction_routes, 12000, 200000)
{
    const int n = rng.range(-3000, 3000), d = rng.range(1, 3000), k = rng.range(1, 700) * (rng.chance(1, 2) ? 1 : -1);
    const Fraction x(n, d), y(rng.range(-50, 50), rng.range(1, 50));
    OP("Fraction hash routes");
    auto eq = [&](const char* how, const Fraction& v)
    { equal_hash("fraction-hash", x, v, fs(x) + " by " + how + ", y=" + fs(y)); };
    eq("scaling", Fraction(n * k, d * k));
    eq("x+y-y", x + y - y);
    eq("x-y+y", x - y + y);
    if (y.numerator() != 0)
    {
        eq("x*y/y", x * y / y);
        eq("x/y*y", x / y * y);
    }
    eq("-(-x)", -(-x));
    eq("++/--", [&] { Fraction t = x; ++t, --t; return t; }());
    eq("stream", [&] { std::istringstream i(fs(x)); Fraction t; i >> t; return t; }());
    eq("move", [&] { Fraction t = x; Fraction u = std::move(t); return u; }());
    eq("gcd", x.numerator() >= 0 ? Fraction::gcd(x, x) : x);
    for (const Fraction& z : {x - x, Fraction(0, k), x * Fraction(0), y - y, [&] { Fraction t = x; Fraction u = std::move(t); return t; }()})
        equal_hash("fraction-hash", Fraction(), z, "zero by another route");
    const auto [m, e] = gen_raw(rng);
    equal_hash("fraction-hash", Fraction(m, e), Fraction(int(mkq(m, e).n), int(mkq(m, e).d)), "extreme " + std::to_string(m) + "/" + std::to_string(e));
    mon::nontrivial(hash2("frac", fs(x), fs(y)));
    SAMPLE("fraction", fs(x) << " by 9 routes, hash " << H(x));
}
SUITE(fraction_unordered, 60, 600)
{
    std::unordered_set<Fraction> s;
    std::vector<std::pair<int, int>> model;
    for (int i = 0; i < 200; ++i)
    {
        const int n = rng.range(-9, 9), d = rng.range(1, 9), k = rng.range(1, 5);
        const Q q = mkq(n, d);
        const std::pair<int, int> p(int(q.n), int(q.d));
        const bool fresh = std::find(model.begin(), model.end(), p) == model.end();
        OP("unordered_set<Fraction>");
        EXPECT(s.insert(Fraction(n * k, d * k)).second == fresh, "fraction-unordered-insert", n << "/" << d);
        if (fresh)
            model.push_back(p);
        EXPECT(s.size() == model.size(), "fraction-unordered-size", s.size() << " for " << model.size());
        mon::evaluated(2);
    }
    for (auto& [n, d] : model)
        EXPECT(s.count(Fraction(-n, -d)) == 1, "fraction-unordered-lookup", n << "/" << d);
}
SUITE(str_routes, 12000, 250000)
{
    const std::string a = gen_bytes(rng, rng.chance(1, 8) ? 200 : 20);
    const Str x(a);
    OP("Str hash routes");
    auto eq = [&](const char* how, const Str& v)
    { equal_hash("str-hash", x, v, mon::esc(a) + " by " + how); };
    const std::size_t c = rng.range(0, a.size());
    eq("copy", Str(x));
    eq("concatenation", Str(a.substr(0, c)) + Str(a.substr(c)));
    eq("reverse twice", x.reverse().reverse());
    eq("rotation", (x << int(c)) >> int(c));
    eq("erase", (x + Str("xyz")).erase(int(a.size()), int(a.size()) + 3));
    eq("replace", (x + Str("\x07\x06")).replace("\x07\x06", ""));
    eq("join", Str("").join({Str(a.substr(0, c)), Str(a.substr(c))}));
    eq("format", a.find_first_of("{}") == std::string::npos ? x.format() : x);
    eq("repeat", x * 1);
    if (!a.empty())
        eq("slice", (Str("q") + x).slice(1, int(a.size()) + 1));
    eq("assignment", [&] { Str t("zzz"); t = x; return t; }());
    eq("move", [&] { Str t(x); Str u("w"); u = std::move(t); return u; }());
    // in objects that held something longer before, whose buffers stay
    for (const std::size_t more : {1, 20, 300, 5000})
    {
        Str used(std::string(a.size() + more, 'x'));
        used = x;
        equal_hash("str-hash", x, used, std::to_string(a.size()) + " bytes, by assignment to a string of " + std::to_string(more) + " more");
        equal_hash("str-hash", x, Str(std::move(used)), std::to_string(a.size()) + " bytes, by moving a string that was longer by " + std::to_string(more));
        if (a.find('\n') == std::string::npos)
        {
            std::istringstream in(a + "\n");
            Str line(std::string(a.size() + more, 'x'));
            in >> line;
            equal_hash("str-hash", x, line, std::to_string(a.size()) + " bytes, by >> to a string of " + std::to_string(more) + " more");
        }
        std::unordered_set<Str> found;
        found.insert(x);
        Str again(std::string(a.size() + more, 'y'));
        again = Str(a);
        EXPECT(found.count(again) == 1, "str-unordered-lookup", a.size() << " bytes: not found by an equal key that was longer before");
    }
    if (a.find('\n') == std::string::npos && !a.empty())
        eq("stream", [&] { std::istringstream i(a); Str t; i >> t; return t; }());
    equal_hash("str-hash", Str(), x * 0, "empty by repetition");
    equal_hash("str-hash", Str(""), x.erase(0, int(a.size())), "empty by erase");
    equal_hash("str-hash", Str(""), [&] { Str t(x); Str u(std::move(t)); return t; }(), "moved-from");
    mon::nontrivial(hash2("str", a, ""));
    SAMPLE("str", mon::esc(a) << " by 13 routes, hash " << H(x));
}
SUITE(str_unordered, 60, 600)
{
    std::unordered_set<Str> s;
    std::vector<std::string> model;
    for (int i = 0; i < 200; ++i)
    {
        const std::string a = gen_bytes(rng, rng.chance(1, 2) ? 3 : 40);
        const bool fresh = std::find(model.begin(), model.end(), a) == model.end();
        OP("unordered_set<Str>");
        EXPECT(s.insert(Str(a)).second == fresh, "str-unordered-insert", mon::esc(a));
        if (fresh)
            model.push_back(a);
        EXPECT(s.size() == model.size(), "str-unordered-size", s.size() << " for " << model.size());
        mon::evaluated(2);
    }
    for (auto& a : model)
        EXPECT(s.count(Str(a)) == 1, "str-unordered-lookup", mon::esc(a));
}
SUITE(complex_routes, 12000, 200000)
{
    auto comp = [&]() -> double
    { return rng.chance(1, 2) ? double(rng.range(-50, 50)) : rng.chance(1, 2) ? rng.range(-4000, 4000) / 64.0 : (rng.unit() - 0.5) * std::pow(10, rng.range(-20, 20)); };
    const Complex x(comp(), comp());
    OP("Complex hash routes");
    auto eq = [&](const char* how, const Complex& a, const Complex& b)
    { equal_hash("complex-hash", a, b, cs(a) + " by " + how); };
    eq("copy", x, Complex(x));
    eq("components", x, Complex(x.real(), x.imag()));
    eq("-(-x)", x, -(-x));
    eq("conjugate twice", x, x.conjugate().conjugate());
    eq("move", x, [&] { Complex t = x; Complex u = std::move(t); return u; }());
    eq("x * 1", x, x * 1);
    eq("x + 0", x, x + 0);
    eq("x - 0", x, x - 0);
    // exact arithmetic on dyadic values
    const Complex g(rng.range(-500, 500) / 8.0, rng.range(-500, 500) / 8.0), k(rng.range(-9, 9), rng.range(-9, 9));
    eq("g + k - k", g, g + k - k);
    eq("g * 2 / 2", g, g * 2 / 2);
    eq("real", Complex(k.real()), Complex(k.real(), 0));
    // the signs of zero
    for (double a : {0.0, -0.0})
        for (double b : {0.0, -0.0})
        {
            eq("zeros", Complex(), Complex(a, b));
            eq("zero imag", Complex(k.real(), 0), Complex(k.real(), b));
            eq("zero real", Complex(0, k.imag()), Complex(a, k.imag()));
        }
    eq("x - x", Complex(), x - x);
    eq("g * 0", Complex(), g * 0);
    eq("-0", Complex(), -Complex());
    eq("conjugate of real", Complex(k.real()), Complex(k.real()).conjugate());
    eq("moved-from", Complex(), [&] { Complex t = x; Complex u = std::move(t); return t; }());
    mon::nontrivial(hash2("complex", cs(x), cs(g)));
    SAMPLE("complex", cs(x) << " by 18 routes, hash " << H(x));
}
SUITE(complex_unordered, 60, 600)
{
    std::unordered_set<Complex> s;
    std::vector<std::pair<int, int>> model;
    for (int i = 0; i < 200; ++i)
    {
        const std::pair<int, int> p(rng.range(-7, 7), rng.range(-7, 7));
        const bool fresh = std::find(model.begin(), model.end(), p) == model.end();
        OP("unordered_set<Complex>");
        const Complex k(rng.range(-7, 7), rng.range(-7, 7));
        EXPECT(s.insert(Complex(p.first, p.second) + k - k).second == fresh, "complex-unordered-insert", p.first << "," << p.second);
        if (fresh)
            model.push_back(p);
        EXPECT(s.size() == model.size(), "complex-unordered-size", s.size() << " for " << model.size());
        mon::evaluated(2);
    }
    for (auto& [a, b] : model)
        EXPECT(s.count(Complex(a, b)) == 1, "complex-unordered-lookup", a << "," << b);
}
// Values equal only within the tolerance of Complex::operator==: recorded finding, exactly these inputs.
SUITE(complex_tolerance_probe, 1, 1)
{
    OP("Complex hash tolerance probe");
    const Complex a(0.1 + 0.2), b(0.3);
    mon::evaluated();
    if (a == b && H(a) != H(b))
        FAIL("complex-hash:tolerance:Complex(0.1+0.2)~Complex(0.3)", "Complex(0.1 + 0.2) == Complex(0.3) (within epsilon) but their hashes differ");
}
