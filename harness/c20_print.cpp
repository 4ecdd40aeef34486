// C20: printing of every type and nesting, the stream's state, and Str::format.
#include "complex.hpp"
#include "deque.hpp"
#include "dict.hpp"
#include "intx.hpp"
#include "set.hpp"
#include "streams.hpp"
#include "strx.hpp"
#include "tuple.hpp"
#include "fracx.hpp"
#include <cmath>
#include <locale>
#include <map>
using pyincpp::Complex;
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::List;
using pyincpp::Pair;
using pyincpp::Set;
using pyincpp::Tuple;
namespace
{
using S = std::string;
// a value and the text it must print
template <typename T>
struct Gen;
template <typename T>
using VT = std::pair<T, S>;

template <>
struct Gen<int>
{
    static VT<int> make(Rng& r, int)
    {
        const int v = r.chance(1, 6) ? r.of<int>({INT_MIN, INT_MAX, 0, -1}) : int(r.range(-100, 100));
        return {v, std::to_string(v)};
    }
};
template <>
struct Gen<char>
{
    static VT<char> make(Rng& r, int)
    {
        const char c = r.range(33, 126);
        return {c, S(1, c)};
    }
};
template <>
struct Gen<unsigned char>
{
    static VT<unsigned char> make(Rng& r, int)
    {
        const char c = r.range(33, 126);
        return {(unsigned char)c, S(1, c)};
    }
};
template <>
struct Gen<long long>
{
    static VT<long long> make(Rng& r, int)
    {
        const long long v = r.chance(1, 4) ? r.of<long long>({LLONG_MIN, LLONG_MAX, 0}) : (long long)(r.next());
        return {v, std::to_string(v)};
    }
};
template <>
struct Gen<short>
{
    static VT<short> make(Rng& r, int)
    {
        const short v = short(r.next());
        return {v, std::to_string(v)};
    }
};
template <>
struct Gen<std::string>
{
    static VT<std::string> make(Rng& r, int)
    {
        const S v = gen_bytes(r, 8);
        return {v, v};
    }
};
template <>
struct Gen<const char*>
{
    static VT<const char*> make(Rng& r, int)
    {
        const char* v = r.of<const char*>({"", "a", "%d", "{}", "two words", "\"quoted\"", ", "});
        return {v, v};
    }
};
template <>
struct Gen<double>
{
    static VT<double> make(Rng& r, int)
    {
        const double v = r.range(-1000, 1000) / 8.0;
        std::ostringstream o;
        o << v;
        return {v, o.str()};
    }
};
template <>
struct Gen<Int>
{
    static VT<Int> make(Rng& r, int)
    {
        const S s = big(gen_int(r, r.chance(1, 6) ? r.chance(1, 10) ? 2000 : 60 : 6)).str();
        return {mk(s), s};
    }
};
template <>
struct Gen<Fraction>
{
    static VT<Fraction> make(Rng& r, int)
    {
        const int n = r.chance(1, 8) ? INT_MAX - r.range(0, 9) : r.range(-50, 50), d = r.chance(1, 8) ? INT_MAX - r.range(0, 9) : r.range(1, 12);
        const Q q = mkq(n, d);
        return {Fraction(n, d), std::to_string((long long)q.n) + (q.d == 1 ? "" : "/" + std::to_string((long long)q.d))};
    }
};
S num(double v, int prec = 6)
{
    std::ostringstream o;
    o.precision(prec);
    o << v;
    return o.str();
}
double gen_double(Rng& r)
{
    switch (r.range(0, 4))
    {
        case 0: return r.range(-9, 9);
        case 1: return r.range(-1000, 1000) / 8.0;
        case 2: return (r.unit() - 0.5) * std::pow(10, r.range(-12, 18));
        case 3: return r.of<double>({0.0, -0.0, 1e300, -1e-300, 0.1, 1.0 / 3});
        default: return r.unit() - 0.5;
    }
}
S complex_text(double re, double im, int prec = 6)
{
    return "(" + num(re, prec) + (im < 0 ? "-" : "+") + num(std::fabs(im), prec) + "j)";
}
template <>
struct Gen<Complex>
{
    static VT<Complex> make(Rng& r, int)
    {
        const double a = gen_double(r), b = gen_double(r);
        return {Complex(a, b), complex_text(a, b)};
    }
};
template <>
struct Gen<Str>
{
    static VT<Str> make(Rng& r, int)
    {
        const S s = gen_bytes(r, r.chance(1, 30) ? r.chance(1, 4) ? 5000 : 300 : 8);
        return {Str(s), "\"" + s + "\""};
    }
};
S bracket(const std::vector<S>& v, const char* open, const char* close)
{
    S o = open;
    for (std::size_t i = 0; i < v.size(); ++i)
        o += (i ? ", " : "") + v[i];
    return o + close;
}
int length(Rng& r, int depth)
{
    if (depth == 0 && r.chance(1, 20)) // long ones
        return r.chance(1, 4) ? r.range(100, 700) : r.range(7, 100);
    return r.chance(1, 6) ? 0 : r.chance(1, 4) ? 1 : r.range(1, depth > 0 ? 3 : 6);
}
template <typename T>
struct Gen<List<T>>
{
    static VT<List<T>> make(Rng& r, int depth)
    {
        List<T> l;
        std::vector<S> t;
        for (int i = length(r, depth); i > 0; --i)
        {
            auto [v, s] = Gen<T>::make(r, depth + 1);
            l.insert(l.size(), v);
            t.push_back(s);
        }
        return {l, bracket(t, "[", "]")};
    }
};
template <typename T>
struct Gen<Deque<T>>
{
    static VT<Deque<T>> make(Rng& r, int depth)
    {
        Deque<T> l;
        std::vector<S> t;
        for (int i = length(r, depth); i > 0; --i)
        {
            auto [v, s] = Gen<T>::make(r, depth + 1);
            l.push_back(v);
            t.push_back(s);
        }
        return {l, bracket(t, "<", ">")};
    }
};
// keys of an independent type in the same order
template <typename T>
struct Key;
template <>
struct Key<int>
{
    using K = int;
    static VT<int> of(Rng& r, K& k)
    {
        auto p = Gen<int>::make(r, 0);
        k = p.first;
        return p;
    }
};
template <>
struct Key<char>
{
    using K = int;
    static VT<char> of(Rng& r, K& k)
    {
        auto p = Gen<char>::make(r, 0);
        k = p.first;
        return p;
    }
};
template <>
struct Key<std::string>
{
    using K = S;
    static VT<S> of(Rng& r, K& k)
    {
        k = gen_bytes(r, 6);
        return {k, k};
    }
};
template <>
struct Key<Str>
{
    using K = S;
    static VT<Str> of(Rng& r, K& k)
    {
        k = gen_bytes(r, 6);
        return {Str(k), "\"" + k + "\""};
    }
};
template <>
struct Key<Int>
{
    using K = Big;
    static VT<Int> of(Rng& r, K& k)
    {
        auto p = Gen<Int>::make(r, 0);
        k = Big(p.second);
        return p;
    }
};
template <>
struct Key<List<int>>
{
    using K = std::vector<int>;
    static VT<List<int>> of(Rng& r, K& k)
    {
        k.clear();
        std::vector<S> t;
        for (int i = r.range(0, 3); i > 0; --i)
        {
            k.push_back(r.range(-3, 3));
            t.push_back(std::to_string(k.back()));
        }
        return {List<int>(k), bracket(t, "[", "]")};
    }
};
template <typename T>
struct Gen<Set<T>>
{
    static VT<Set<T>> make(Rng& r, int depth)
    {
        Set<T> s;
        std::map<typename Key<T>::K, S> m;
        for (int i = length(r, depth); i > 0; --i)
        {
            typename Key<T>::K k;
            auto [v, t] = Key<T>::of(r, k);
            s.add(v);
            m.emplace(k, t);
        }
        std::vector<S> t;
        for (auto& [k, x] : m)
            t.push_back(x);
        return {s, bracket(t, "{", "}")};
    }
};
template <typename K, typename V>
struct Gen<Dict<K, V>>
{
    static VT<Dict<K, V>> make(Rng& r, int depth)
    {
        Dict<K, V> d;
        std::map<typename Key<K>::K, S> m;
        for (int i = length(r, depth); i > 0; --i)
        {
            typename Key<K>::K k;
            auto [key, kt] = Key<K>::of(r, k);
            auto [v, vt] = Gen<V>::make(r, depth + 1);
            d.add(key, v);
            m.emplace(k, kt + ": " + vt);
        }
        std::vector<S> t;
        for (auto& [k, x] : m)
            t.push_back(x);
        return {d, bracket(t, "{", "}")};
    }
};
template <typename... Ts>
struct Gen<Tuple<Ts...>>
{
    template <std::size_t... I>
    static VT<Tuple<Ts...>> build(const std::tuple<VT<Ts>...>& p, std::index_sequence<I...>)
    {
        std::vector<S> t{std::get<I>(p).second...};
        return {Tuple<Ts...>(std::get<I>(p).first...), sizeof...(Ts) == 1 ? "(" + t[0] + ",)" : bracket(t, "(", ")")};
    }
    static VT<Tuple<Ts...>> make(Rng& r, int depth)
    {
        return build(std::tuple<VT<Ts>...>{Gen<Ts>::make(r, depth + 1)...}, std::index_sequence_for<Ts...>{});
    }
};
struct State
{
    std::ios_base::fmtflags flags;
    char fill;
    std::streamsize precision, width;
    std::locale loc;
    std::ios_base::iostate exc, rd;
    explicit State(const std::ostream& o)
        : flags(o.flags())
        , fill(o.fill())
        , precision(o.precision())
        , width(o.width())
        , loc(o.getloc())
        , exc(o.exceptions())
        , rd(o.rdstate())
    {
    }
    const char* diff(const State& o) const
    {
        return flags != o.flags ? "flags" : fill != o.fill ? "fill" : precision != o.precision ? "precision" : width != o.width ? "width" : !(loc == o.loc) ? "locale" : exc != o.exc ? "exception mask" : rd != o.rd ? "error state" : nullptr;
    }
};
struct Grouping : std::numpunct<char>
{
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
    char do_decimal_point() const override { return ','; }
};
void hostile(std::ostream& o, Rng& r, bool text_kept)
{
    o.fill(r.of<char>({' ', '*', '0', '\xff'}));
    if (r.chance(1, 3))
        o << std::left;
    else if (r.chance(1, 2))
        o << std::internal;
    if (r.chance(1, 3))
        o << std::boolalpha;
    if (r.chance(1, 3))
        o << std::unitbuf;
    if (r.chance(1, 3))
        o << std::skipws;
    if (!text_kept)
    {
        if (r.chance(1, 2))
            o << std::hex << std::showbase;
        else if (r.chance(1, 2))
            o << std::oct;
        if (r.chance(1, 2))
            o << std::showpos;
        if (r.chance(1, 2))
            o << std::uppercase;
        if (r.chance(1, 3))
            o << std::scientific;
        else if (r.chance(1, 2))
            o << std::fixed;
        if (r.chance(1, 2))
            o << std::showpoint;
        o.precision(r.range(0, 20));
        if (r.chance(1, 2))
            o.imbue(std::locale(std::locale::classic(), new Grouping));
    }
}
template <typename T>
void one(Rng& r, const char* name)
{
    auto [v, text] = Gen<T>::make(r, 0);
    NOTE(name << " expects " << mon::esc(text));
    const T& c = v;
    std::ostringstream o;
    OP("print");
    mon::set_op(name);
    EXPECT(&(o << c) == &o, std::string("print-return:") + name, "<< does not return the stream");
    EXPECT(o.str() == text, std::string("print-text:") + name, "prints " << mon::esc(o.str()) << " want " << mon::esc(text));
    if (const char* d = State(o).diff(State(std::ostringstream())))
        FAIL(std::string("print-state:") + name, "printing " << mon::esc(text) << " left another " << d << " in the stream");
    // twice into a stream that is not fresh, between other output
    std::ostringstream p;
    hostile(p, r, true);
    p << 12 << '|';
    const State before(p);
    p << c << c;
    if (const char* d = State(p).diff(before))
        FAIL(std::string("print-state:") + name, "printing " << mon::esc(text) << " left another " << d << " in a used stream");
    p << '|' << 34;
    EXPECT(p.str() == "12|" + text + text + "|34", std::string("print-residue:") + name, "prints " << mon::esc(p.str()) << " want twice " << mon::esc(text));
    // any state: only that it is kept
    std::ostringstream q;
    hostile(q, r, false);
    const State hb(q);
    OP("print into a hostile stream");
    q << c;
    if (const char* d = State(q).diff(hb))
        FAIL(std::string("print-state:") + name, "printing " << mon::esc(text) << " into a stream with other settings left another " << d);
    {
        std::string sunk;
        {
            streams::Drops sink(sunk, int(r.range(0, 3)));
            std::ostream ds(&sink);
            if (r.chance(1, 2))
                ds.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);
            OP("print into a slow sink");
            ds << c << '|';
        }
        EXPECT(sunk == text + "|", std::string("print-text:") + name, "prints " << mon::esc(sunk) << " into a sink that takes a few characters at a time, want " << mon::esc(text));
    }
    std::ostringstream again;
    again << c;
    EXPECT(again.str() == text, std::string("print-changed-value:") + name, "prints " << mon::esc(again.str()) << " the next time");
    mon::evaluated(4);
    mon::nontrivial(mon::hash_str(name, mon::hash_str(text)));
    SAMPLE(name, mon::esc(text));
}
#define ONE(...) one<__VA_ARGS__>(rng, #__VA_ARGS__)

// ---- format ------------------------------------------------------------------------------------
S segment(Rng& r)
{
    S s = gen_bytes(r, 8);
    for (auto& c : s)
        if (c == '{')
            c = '}';
    if (r.chance(1, 8))
        s += "}";
    return s;
}
template <typename... Ts, std::size_t... I>
void format_with(Rng& r, const std::tuple<VT<Ts>...>& args, std::index_sequence<I...>)
{
    const std::vector<S> texts{std::get<I>(args).second...};
    const int holes = r.chance(1, 2) ? int(texts.size()) : int(r.range(0, texts.size() + 2));
    S f, want;
    for (int i = 0; i < holes; ++i)
    {
        const S s = segment(r);
        f += s + "{}";
        want += s + (i < int(texts.size()) ? texts[i] : "{}");
    }
    S tail = segment(r);
    if (r.chance(1, 12))
        tail += "{"; // never closed
    if (holes < int(texts.size()))
        for (auto& c : tail)
            if (c == '{')
                c = '(';
    f += tail;
    want += tail;
    const Str fmt(f);
    NOTE(mon::esc(f) << " with " << texts.size() << " arguments");
    OP("Str format");
    const Str got = fmt.format(std::get<I>(args).first...);
    EXPECT(raw(got) == want, "format-text", mon::esc(f) << ".format(" << sizeof...(Ts) << " arguments) = " << mon::esc(raw(got)) << " want " << mon::esc(want));
    EXPECT(raw(fmt) == f, "format-changed-operand", mon::esc(f));
    mon::evaluated();
    mon::nontrivial(mon::hash_str(f, mon::hash_str(want)));
    SAMPLE("format", mon::esc(f) << " -> " << mon::esc(want));
}
template <typename... Ts>
void format_one(Rng& r)
{
    format_with<Ts...>(r, std::tuple<VT<Ts>...>{Gen<Ts>::make(r, 1)...}, std::index_sequence_for<Ts...>{});
}
} // namespace

SUITE(scalars, 2500, 100000)
{
    ONE(Int);
    ONE(Fraction);
    ONE(Complex);
    ONE(Str);
}
SUITE(complex_precision, 1500, 40000)
{
    const double a = gen_double(rng), b = gen_double(rng);
    const int prec = rng.of<int>({1, 3, 6, 10, 17});
    std::ostringstream o;
    o.precision(prec);
    o << Complex(a, b);
    EXPECT(o.str() == complex_text(a, b, prec) && o.precision() == prec, "print-text:Complex", "precision " << prec << " prints " << mon::esc(o.str()) << " want " << complex_text(a, b, prec));
    mon::evaluated();
    mon::nontrivial(mon::hash_str(o.str()));
}
SUITE(flat, 1200, 50000)
{
    ONE(List<int>);
    ONE(List<Str>);
    ONE(List<Int>);
    ONE(List<Fraction>);
    ONE(List<Complex>);
    ONE(List<double>);
    ONE(Deque<int>);
    ONE(Deque<Str>);
    ONE(Deque<Int>);
    ONE(Set<int>);
    ONE(Set<Str>);
    ONE(Set<Int>);
    ONE(Dict<int, int>);
    ONE(Dict<Str, Int>);
    ONE(Dict<Int, Str>);
    ONE(Tuple<>);
    ONE(Tuple<int>);
    ONE(Tuple<Str>);
    ONE(Tuple<int, Str>);
    ONE(Tuple<char, Int, double>);
    ONE(Tuple<Fraction, Complex, Str, int>);
    ONE(Tuple<int, Str, int, Str, int>);
    ONE(Tuple<int, int, int, int, int, int, int>);
    ONE(Tuple<int, Int, Str, double, char, Fraction, Complex, int, Str>);
    ONE(Tuple<int, int, int, int, int, int, int, int, int, int, int, int>);
    ONE(Tuple<Str, int, Str, int, Str, int, Str, int, Str, int, Str, int, Str, int, Str, int, Str, int>);
}
SUITE(foreign, 500, 20000) // elements of types that are not the library's print as they do on their own
{
    ONE(List<char>);
    ONE(List<unsigned char>);
    ONE(List<long long>);
    ONE(List<short>);
    ONE(List<std::string>);
    ONE(List<const char*>);
    ONE(Deque<char>);
    ONE(Deque<double>);
    ONE(Deque<std::string>);
    ONE(Set<char>);
    ONE(Set<std::string>);
    ONE(Dict<char, char>);
    ONE(Dict<std::string, const char*>);
    ONE(Dict<char, double>);
    ONE(Tuple<char>);
    ONE(Tuple<const char*, std::string, short>);
    ONE(Tuple<unsigned char, long long>);
    ONE(List<List<char>>);
    ONE(Dict<std::string, List<std::string>>);
}
SUITE(nested, 700, 30000)
{
    ONE(List<List<int>>);
    ONE(List<List<List<Str>>>);
    ONE(List<Deque<int>>);
    ONE(List<Set<int>>);
    ONE(List<Dict<int, Str>>);
    ONE(List<Tuple<int, Str>>);
    ONE(List<Tuple<>>);
    ONE(Deque<Deque<Int>>);
    ONE(Deque<List<Fraction>>);
    ONE(Deque<Tuple<Int>>);
    ONE(Set<List<int>>);
    ONE(Dict<int, List<int>>);
    ONE(Dict<Str, Dict<int, Str>>);
    ONE(Dict<List<int>, Set<int>>);
    ONE(Dict<int, Tuple<int, int>>);
    ONE(Dict<Int, Deque<Str>>);
    ONE(Tuple<Tuple<int>>);
    ONE(Tuple<Tuple<>, int>);
    ONE(Tuple<Tuple<int, int>, Tuple<Str, List<int>>>);
    ONE(Tuple<List<Str>, Dict<int, int>, Set<int>, Deque<int>>);
    ONE(Tuple<Dict<Str, List<Tuple<int, Int>>>>);
}
SUITE(views, 1500, 30000) // items(), keys() and values() of a Dict print like sets
{
    auto [d, text] = Gen<Dict<int, Str>>::make(rng, 0);
    std::ostringstream o;
    OP("print Dict items");
    o << d.items();
    EXPECT(o.str() == text, "print-text:items", "prints " << mon::esc(o.str()) << " want " << mon::esc(text));
    mon::evaluated();
    mon::nontrivial(mon::hash_str(text));
}
SUITE(format, 2500, 80000)
{
    format_one<>(rng);
    format_one<int>(rng);
    format_one<Str>(rng);
    format_one<Int, int>(rng);
    format_one<int, double, char>(rng);
    format_one<List<int>, Dict<Str, int>>(rng);
    format_one<Str, Int, Fraction, Complex>(rng);
    format_one<Tuple<int, Str>, Set<int>, Deque<Int>, int, Int, Str>(rng);
    format_one<int, Str, int, Str, int, Str, int, Str, int, Str, int, Str>(rng);
    const S f = segment(rng) + "{}" + segment(rng);
    const S arg = "text";
    const auto p = f.find("{}");
    OP("Str format");
    EXPECT(raw(Str(f).format("text")) == f.substr(0, p) + arg + f.substr(p + 2) && raw(Str(f).format(arg)) == f.substr(0, p) + arg + f.substr(p + 2), "format-text", mon::esc(f));
}
SUITE(very_long, 8, 100) // beyond every 16-bit count
{
    const int n = rng.range(33000, 70000);
    S list = "[", queue = "<", str, ints;
    std::vector<int> v(n);
    Dict<int, int> dict;
    for (int i = 0; i < n; ++i)
    {
        v[i] = rng.range(-99, 99);
        list += (i ? ", " : "") + std::to_string(v[i]);
        queue += (i ? ", " : "") + std::to_string(v[i]);
        str += char(rng.range(0, 122)); // no braces
        ints += char('1' + rng.range(0, 8));
    }
    list += "]", queue += ">";
    OP("print very long");
    auto is = [](const auto& x, const S& want, const char* key)
    {
        std::ostringstream o;
        o << x;
        EXPECT(o.str() == want, key, "prints " << mon::esc(o.str()) << " want " << mon::esc(want));
        mon::evaluated();
        mon::nontrivial(mon::hash_str(want));
    };
    is(List<int>(v), list, "print-text:List<int>");
    is(Deque<int>(v.begin(), v.end()), queue, "print-text:Deque<int>");
    is(Str(str), "\"" + str + "\"", "print-text:Str");
    is(Int(ints.c_str()), ints, "print-text:Int");
    S set = "{", pairs = "{";
    std::vector<int> w(n);
    for (int i = 0; i < n; ++i)
    {
        w[i] = i - 500;
        set += (i ? ", " : "") + std::to_string(w[i]);
        pairs += (i ? ", " : "") + std::to_string(w[i]) + ": " + std::to_string(v[i]);
        dict.add(w[i], v[i]);
    }
    is(Set<int>(w.begin(), w.end()), set + "}", "print-text:Set<int>");
    is(dict, pairs + "}", "print-text:Dict<int, int>");
    is(Str("a{}b{}").format(Str(str), List<int>(v)), "\"a\"" + str + "\"b" + list + "\"", "format-text");
    is(Str(str + "{}").format(ints), "\"" + str + ints + "\"", "format-text");
}
// every number of digits, characters and elements; elements of every width; twice into the same stream and formatted
SUITE(every_size, 220, 700)
{
    for (int n = 8 * int(idx) + 1; n <= 8 * int(idx) + 8; ++n)
    {
        auto is = [&](const auto& x, const S& want, const char* key)
        {
            OP("print every size");
            NOTE(key << " of size " << n);
            std::ostringstream o;
            o << x << '|' << x;
            EXPECT(o.str() == want + "|" + want, key, "size " << n << " prints " << mon::esc(o.str()) << " want twice " << mon::esc(want));
            mon::evaluated();
            mon::nontrivial(mon::hash_str(want));
        };
        S digits(std::size_t(n), '0'), str;
        switch (rng.range(0, 3))
        {
            case 0:
                for (auto& c : digits)
                    c = char('0' + rng.range(0, 9));
                break;
            case 1: digits.assign(std::size_t(n), char('1' + rng.range(0, 8))); break;
            case 2: digits.back() = '7'; break;
            default:;
        }
        digits[0] = char('1' + rng.range(0, 8));
        is(Int(digits.c_str()), digits, "print-text:Int");
        is(-Int(digits.c_str()), "-" + digits, "print-text:Int");
        for (int i = 0; i < n; ++i)
            str += char(rng.range(idx % 2, 255));
        is(Str(str), "\"" + str + "\"", "print-text:Str");
        for (auto& c : str)
            if (c == '{' || c == '}')
                c = '|';
        EXPECT(raw(Str(str + "{}" + str).format(7)) == str + "7" + str && raw(Str("{}" + str + "{}").format(Int(digits.c_str()), "z")) == digits + str + "z", "format-text", "a format string of " << n << " characters");
        EXPECT(raw(Str(str).format()) == str, "format-text", "a format string of " << n << " characters without a placeholder");
        if (idx >= 90)
            continue;
        S list = "[", queue = "<", set = "{", dict = "{", words = "[";
        std::vector<int> v;
        std::vector<Str> w;
        std::vector<Pair<int, Str>> p;
        const int wide = int(rng.of<int>({10, 1000, 100000, 2000000000}));
        for (int i = 0; i < n; ++i)
        {
            v.push_back(int(rng.range(-wide, wide)));
            const S t(std::size_t(rng.range(0, 12)), char('a' + i % 26));
            w.push_back(Str(t));
            p.push_back(Pair<int, Str>(i - 40, Str(t)));
            const S sep = i ? ", " : "";
            list += sep + std::to_string(v.back());
            queue += sep + std::to_string(v.back());
            words += sep + "\"" + t + "\"";
            set += sep + std::to_string(3 * i - 100);
            dict += sep + std::to_string(i - 40) + ": \"" + t + "\"";
        }
        list += "]", queue += ">", words += "]", set += "}", dict += "}";
        is(List<int>(v), list, "print-text:List<int>");
        is(Deque<int>(v.begin(), v.end()), queue, "print-text:Deque<int>");
        is(List<Str>(w), words, "print-text:List<Str>");
        Set<int> s;
        for (int i = 0; i < n; ++i)
            s.add(3 * i - 100);
        is(s, set, "print-text:Set<int>");
        const Dict<int, Str> d(p.begin(), p.end());
        is(d, dict, "print-text:Dict<int, Str>");
        is(d.items(), dict, "print-text:items");
        is(List<List<int>>{v, v}, "[" + list + ", " + list + "]", "print-text:List<List<int>>");
        EXPECT(raw(Str("{}: {}").format(List<int>(v), d)) == list + ": " + dict, "format-text", "containers of " << n << " elements");
    }
}
