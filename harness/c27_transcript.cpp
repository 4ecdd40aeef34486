// C27: what every operation answered, written down for comparison with the same run of a differently compiled build.
// Nothing is judged here; custom.py compares the transcripts case by case.
#include "ops.hpp"
#include <cmath>
#include <locale>
using namespace ops;

static FILE* transcript()
{
    static FILE* f = []
    {
        const char* p = getenv("C27_OUT");
        FILE* g = p ? fopen(p, "ab") : stdout;
        return g ? g : (perror("C27_OUT"), exit(2), g);
    }();
    return f;
}
struct Case // the lines of one case are written together, when it is over
{
    const char* suite;
    std::uint64_t idx;
    std::ostringstream o;
    int lines = 0;
    Case(const char* s, std::uint64_t i)
        : suite(s)
        , idx(i)
    {
    }
    ~Case()
    {
        fprintf(transcript(), "#%s:%llu\n", suite, (unsigned long long)idx);
        const std::string s = o.str();
        fwrite(s.data(), 1, s.size(), transcript());
        fflush(transcript());
        NOTE(s);
    }
    // one call: its name, its answer or its rejection
    template <typename F>
    void call(const std::string& name, F f)
    {
        mon::set_op(name.c_str());
        std::ostringstream t;
        const mon::Out r = mon::attempt([&] { dump(t, f()); });
        o << name << ": " << (r == mon::Out::ok ? t.str() : std::string("rejected ") + mon::name(r) + " " + mon::last_what) << "\n";
        ++lines;
        mon::evaluated();
        mon::nontrivial(mon::hash_str(name, mon::hash_str(t.str())));
    }
};

SUITE(histories, 700, 6000)
{
    Large mode(idx % 6 == 5);
    Case t("histories", idx);
    World w(rng);
    std::uint64_t h = 1;
    for (int i = 0; i < 60; ++i)
    {
        const int k = int(rng.range(0, op_count() - 1));
        const std::uint64_t s = rng.next();
        Rng rr(s);
        Ctx c{rr, t.o};
        mon::set_op(op_name(k));
        mon::count_n(op_name(k), 1);
        run_op(k, w, c);
        mon::evaluated();
        h = mon::hash_str(op_name(k), mon::hash_mix(h, s));
        mon::nontrivial(h);
    }
    for (const auto& s : w.snapshot())
        t.o << "end: " << s << "\n";
}
SUITE(each_op, 400, 4000)
{
    Large mode(idx % 6 == 5);
    build_table();
    const int n = op_count();
    Case t("each_op", idx);
    World w(rng);
    for (int j = 0; j < 12; ++j)
    {
        const int k = int((idx * 12 + j) % n);
        const std::uint64_t s = rng.next();
        Rng rr(s);
        Ctx c{rr, t.o};
        mon::set_op(op_name(k));
        mon::count_n(op_name(k), 1);
        run_op(k, w, c);
        mon::evaluated();
        mon::nontrivial(mon::hash_mix(mon::hash_str(op_name(k)), s));
    }
    const auto snap = w.snapshot();
    for (std::size_t i = 0; i < snap.size(); ++i)
        t.o << "end " << i << ": " << snap[i] << "\n";
}

template <typename T>
static std::string read_all(const std::string& in)
{
    std::istringstream is(in);
    std::ostringstream o;
    for (int i = 0; i < 4; ++i)
    {
        T x = [] { if constexpr (std::is_same_v<T, Complex>) return Complex(-7, -7); else return T(); }();
        is >> x;
        dump(o, x);
        o << (is.good() ? "g" : "") << (is.eof() ? "e" : "") << (is.fail() ? "f" : "") << " ";
        if (!is)
        {
            is.clear();
            o << "at " << is.tellg() << " ";
            is.get();
        }
    }
    return o.str();
}
// every byte in every role of the string, number and stream functions (plain char may be signed or not)
SUITE(bytes, 256, 256)
{
    Case t("bytes", idx);
    const char ch = char(idx);
    const std::string b(1, ch);
    const Str s(b), mid(std::string("aB") + ch + "c1"), both(b + "x y" + b), rep(b + b + b);
    for (const Str& x : {s, mid, both, rep})
    {
        t.call("upper", [&] { return x.upper(); });
        t.call("lower", [&] { return x.lower(); });
        t.call("strip", [&] { return x.strip(); });
        t.call("strip of it", [&] { return x.strip(ch); });
        t.call("split", [&] { return x.split(s, false); });
        t.call("split keep", [&] { return x.split(s, true); });
        t.call("find", [&] { return x.find(s); });
        t.call("count", [&] { return x.count(s); });
        t.call("contains", [&] { return x.contains(s); });
        t.call("replace", [&] { return x.replace(s, "<>"); });
        t.call("replace by it", [&] { return x.replace("c", s); });
        t.call("reverse", [&] { return x.reverse(); });
        t.call("erase", [&] { return x.erase(0, 1); });
        t.call("<<", [&] { return x << 1; });
        t.call("*", [&] { return x * 2; });
        t.call("print", [&] { return printed(x); });
        t.call("format", [&] { return (Str("{}|{") + s + Str("}|{}")).format(x, s); });
        t.call("join", [&] { return s.join(List<Str>{x, s, x}); });
        t.call("starts ends", [&] { return int(x.starts_with(s)) * 2 + int(x.ends_with(s)); });
        for (int c2 = 0; c2 < 256; c2 += 15)
        {
            const Str y(std::string(1, char(c2)));
            t.call("order", [&] { return std::string(x < y ? "<" : x == y ? "=" : ">") + (y <= x ? "1" : "0"); });
        }
        for (int i = -6; i < 6; ++i)
            t.call("[]", [&] { return x[i]; });
    }
    for (int base = 2; base <= 36; ++base)
    {
        t.call("to_integer", [&] { return s.to_integer(base); });
        t.call("to_integer in", [&] { return Str("1" + b + "0").to_integer(base); });
        t.call("to_integer blank", [&] { return Str(b + "11" + b).to_integer(base); });
    }
    for (const auto& x : {b, b + "5", "5" + b, "1" + b + "2", "1e" + b + "2", b + "1.5" + b})
    {
        t.call("to_decimal", [&] { return Fl{Str(x).to_decimal()}; });
        t.call("Int literal", [&] { return Int(x.c_str()); });
        t.call("read Int", [&] { return read_all<Int>(x + " 3" + b); });
        t.call("read Fraction", [&] { return read_all<Fraction>(x + "/3" + b); });
        t.call("read Complex", [&] { return read_all<Complex>("(" + x + "+2j)" + b); });
        t.call("read Str", [&] { return read_all<Str>(x + "\n" + b); });
    }
    t.call("Set<char>", [&] { return Set<Str>{s, "a", Str(std::string(1, char(0x80))), "z"}; });
    t.call("List<Str> sort", [&] { List<Str> l{s, "a", Str(std::string(1, char(0xff))), Str(std::string(1, char(0x7f)))}; l.sort(); return l; });
    t.call("Dict<Str,int>", [&] { return Dict<Str, int>{{s, 1}, {"a", 2}, {Str(std::string(1, char(0xe4))), 3}}; });
    t.call("List<char> print", [&] { return printed(List<char>{ch, 'a'}); });
    t.call("Set<char>", [&] { Set<Int> x; for (char c3 : {ch, 'a'}) x.add(Int(int((unsigned char)c3))); return x; });
}
// numbers of every size, and the limits of the machine types
SUITE(numbers, 500, 8000)
{
    Case t("numbers", idx);
    const Int a = Gen<Int>::make(rng);
    const Int b = Gen<Int>::make(rng);
    const Int m = Gen<Int>::make(rng);
    const int e = int(rng.range(-3, 12));
    t.call("+", [&] { return a + b; });
    t.call("-", [&] { return a - b; });
    t.call("*", [&] { return a * b; });
    t.call("/", [&] { return a / b; });
    t.call("%", [&] { return a % b; });
    t.call("order", [&] { return int(a < b) + 2 * int(a == b) + 4 * int(a >= b); });
    t.call("sqrt", [&] { return Int::sqrt(a); });
    t.call("gcd", [&] { return Int::gcd(a, b); });
    t.call("lcm", [&] { return Int::lcm(a, b); });
    t.call("pow", [&] { return Int::pow(a.digits() > 50 ? Int(3) : a, Int(e)); });
    t.call("pow mod", [&] { return Int::pow(a, Int(e), m); });
    t.call("log", [&] { return Int::log(a, b); });
    if (int_fits<int>(a))
        t.call("to int", [&] { return a.to_integer<int>(); });
    if (int_fits<long long>(a))
        t.call("to long long", [&] { return a.to_integer<long long>(); });
    if (int_fits<unsigned long long>(a))
        t.call("to unsigned long long", [&] { return a.to_integer<unsigned long long>(); });
    if (int_fits<short>(a))
        t.call("to short", [&] { return a.to_integer<short>(); });
    t.call("++ --", [&] { Int x = a; ++x; --x; --x; return x; });
    const int n = gen_int(rng);
    const int d = gen_int(rng);
    t.call("Int(int)", [&] { return Int(n) + Int(d); });
    const Fraction p = Gen<Fraction>::make(rng);
    const Fraction q = Gen<Fraction>::make(rng);
    for (char op : {'+', '-', '*', '/', '%'})
        if (frac_fits(p, q, op) && frac_small(p) && frac_small(q))
            t.call(std::string("Fraction ") + op, [&] { return op == '+' ? p + q : op == '-' ? p - q : op == '*' ? p * q : op == '/' ? p / q : p % q; });
    t.call("Fraction order", [&] { return int(p < q) + 2 * int(p == q) + 4 * int(p >= q); });
    t.call("Fraction double", [&] { return Fl{double(p)}; });
    const Complex x = Gen<Complex>::make(rng);
    const Complex y = Gen<Complex>::make(rng);
    t.call("Complex +", [&] { return x + y; });
    t.call("Complex *", [&] { return x * y; });
    t.call("Complex /", [&] { return x / y; });
    t.call("Complex abs", [&] { return Fl{x.abs()}; });
    t.call("Complex arg", [&] { return Fl{x.arg()}; });
    t.call("Complex pow", [&] { return Complex::pow(x, Complex(double(e) / 2, 0.5)); });
    t.call("Complex ==", [&] { return x == y; });
    mon::count_n("number calls", t.lines);
}
// sequences longer than those of the world, and callbacks
SUITE(sequences, 200, 800)
{
    Case t("sequences", idx);
    const int n = int(rng.range(0, 300)), span = int(rng.of<int>({2, 20, 1000}));
    std::vector<std::pair<int, int>> v; // equal keys carry identities
    for (int i = 0; i < n; ++i)
        v.push_back({int(rng.range(-span, span)), i});
    using PI = std::pair<int, int>;
    List<PI> l(v);
    const int k = gen_int(rng);
    auto by_key = [](const PI& a, const PI& b) { return a.first < b.first; };
    t.call("sort", [&] { List<PI> x(l); x.sort(by_key); return x; });
    t.call("sort back", [&] { List<PI> x(l); x.sort([](const PI& a, const PI& b) { return a.first > b.first; }); return x; });
    t.call("uniquify", [&] { List<int> x; for (const auto& p : v) x += p.first; x.uniquify(); return x; });
    t.call("rotate", [&] { List<PI> x(l); x <<= k; return x; });
    t.call("rotate back", [&] { List<PI> x(l); x >>= k; return x; });
    t.call("filter", [&] { List<PI> x(l); x.filter([&](const PI& a) { return a.first > k % 9; }); return x; });
    t.call("map", [&] { List<PI> x(l); int c = 0; x.map([&](PI& a) { a.second += ++c; }); return x; });
    const int i = int(rng.range(-n - 1, n + 1));
    const int j = int(rng.range(-n - 1, n + 1));
    const int step = int(rng.of<int>({1, -1, 2, -2, 3, INT_MAX, INT_MIN, -7}));
    t.call("slice", [&] { return l.slice(i, j, step); });
    t.call("erase", [&] { List<PI> x(l); x.erase(i, j); return x; });
    t.call("insert", [&] { List<PI> x(l); x.insert(i, {k, k}); return x; });
    t.call("Deque rotate", [&] { Deque<PI> x(v.begin(), v.end()); x <<= k; x >>= i; x.reverse(); return x; });
    t.call("Set", [&] { Set<int> x, y; for (const auto& p : v) (p.second & 1 ? x : y).add(p.first); return std::pair{x ^ y, (x & y) | (x - y)}; });
    t.call("Dict", [&] { Dict<int, int> x; for (const auto& p : v) x.add(p.first, p.second); return std::pair{x, x.keys()}; });
    t.call("hash twins", [&] { Int a(k), b(std::to_string(k).c_str()); return std::hash<Int>{}(a) == std::hash<Int>{}(b); });
    t.call("print", [&] { List<int> x; for (const auto& p : v) x += p.first; return printed(x) + printed(Set<int>(x.begin(), x.end())) + printed(Deque<int>(x.begin(), x.end())); });
    mon::count_n("sequence calls", t.lines);
}
