// C17: Tuple keeps every element; equality compares all of them.
#include "dict.hpp"
#include "elems.hpp"
#include "complex.hpp"
#include "tuple.hpp"
#include <array>
#include <tuple>
#include <cmath>
#include <cstring>
#include <limits>
#include <typeinfo>
using pyincpp::Complex;
using pyincpp::Fraction;
using pyincpp::Int;
using pyincpp::List;
using pyincpp::Str;
using pyincpp::Tuple;
namespace
{
// double as an element type of its own
struct Tag
{
};
} // namespace
template <>
struct As<double>
{
    static constexpr const char* name = "double";
    static double make(int k) { return k / 8.0; }
    static int key(double v) { return int(v * 8); }
};
template <>
struct As<char>
{
    static constexpr const char* name = "char";
    static char make(int k) { return char(k); }
    static int key(char v) { return (signed char)v; }
};
template <>
struct As<Tuple<int, Str>>
{
    static constexpr const char* name = "Tuple<int, Str>";
    static Tuple<int, Str> make(int k) { return Tuple<int, Str>(k, As<Str>::make(k + 1)); }
    static int key(const Tuple<int, Str>& v) { return As<Str>::key(v.get<1>()) == v.get<0>() + 1 ? v.get<0>() : INT_MIN; }
};
namespace
{
template <typename... Ts>
using Values = std::array<int, sizeof...(Ts)>;

template <std::size_t K, typename... Ts>
void prefixes(const Tuple<Ts...>& t, const Values<Ts...>& v, const std::string& ctx) // no tuple equals its first K elements
{
    if constexpr (K < sizeof...(Ts))
    {
        [&]<std::size_t... I>(std::index_sequence<I...>)
        {
            const Tuple<std::tuple_element_t<I, std::tuple<Ts...>>...> p(As<std::tuple_element_t<I, std::tuple<Ts...>>>::make(v[I])...);
            OP("Tuple == prefix");
            EXPECT(!(t == p) && !(p == t) && t != p && p != t, "tuple-==-arity", ctx << ": a tuple of " << sizeof...(Ts) << " elements equals its first " << K);
            mon::evaluated(4);
        }(std::make_index_sequence<K>{});
        prefixes<K + 1>(t, v, ctx);
    }
}
template <typename... Ts, std::size_t... I>
Tuple<Ts...> build_(const Values<Ts...>& v, std::index_sequence<I...>, bool helper)
{
    if (helper)
        return pyincpp::make_tuple(As<Ts>::make(v[I])...);
    return Tuple<Ts...>(As<Ts>::make(v[I])...);
}
template <typename... Ts>
Tuple<Ts...> build(const Values<Ts...>& v, bool helper = false)
{
    return build_<Ts...>(v, std::index_sequence_for<Ts...>{}, helper);
}
template <typename... Ts>
std::string type_name()
{
    std::string s = "Tuple<";
    const char* n[] = {As<Ts>::name...};
    for (std::size_t i = 0; i < sizeof...(Ts); ++i)
        s += (i ? ", " : "") + std::string(n[i]);
    return s + ">";
}
template <std::size_t I, typename... Ts>
void get_all(const Tuple<Ts...>& t, const Values<Ts...>& v, const char* key, const std::string& ctx)
{
    if constexpr (I < sizeof...(Ts))
    {
        using E = std::tuple_element_t<I, std::tuple<Ts...>>;
        OP("Tuple get");
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(t.template get<I>())>, E>)
        {
            const int got = As<E>::key(t.template get<I>());
            EXPECT(got == v[I], std::string("tuple-get:") + key, type_name<Ts...>() << " " << ctx << ": get<" << I << ">() is " << got << " want " << v[I]);
        }
        else
            FAIL(std::string("tuple-get:") + key, type_name<Ts...>() << " " << ctx << ": get<" << I << ">() has another type than element " << I);
        mon::evaluated();
        get_all<I + 1>(t, v, key, ctx);
    }
}
template <typename T, typename... Ts>
void check_rest_value(const Tuple<T, Ts...>& t, const Values<T, Ts...>& v, const Values<Ts...>& w, const Tuple<Ts...>& rest, const std::string& ctx);
template <typename T, typename... Ts>
void check_rest(const Tuple<T, Ts...>& t, const Values<T, Ts...>& v, const std::string& ctx)
{
    Values<Ts...> w;
    for (std::size_t i = 0; i < sizeof...(Ts); ++i)
        w[i] = v[i + 1];
    OP("Tuple rest");
    if constexpr (!std::is_same_v<std::remove_cvref_t<decltype(t.rest())>, Tuple<Ts...>>)
        FAIL("tuple-rest-type", (type_name<T, Ts...>()) << ": rest() is not the tuple of the other elements");
    else
        check_rest_value(t, v, w, t.rest(), ctx);
}
template <typename T, typename... Ts>
void check_rest_value(const Tuple<T, Ts...>& t, const Values<T, Ts...>& v, const Values<Ts...>& w, const Tuple<Ts...>& rest, const std::string& ctx)
{
    EXPECT(rest.size() == int(sizeof...(Ts)), "tuple-rest-size", (type_name<T, Ts...>()) << " " << ctx);
    mon::evaluated();
    if constexpr (sizeof...(Ts) > 0)
    {
        get_all<0>(rest, w, "rest", ctx);
        const Tuple<Ts...> alone = build<Ts...>(w);
        EXPECT(rest == alone && alone == rest && !(rest != alone), "tuple-rest-==", (type_name<T, Ts...>()) << " " << ctx << ": rest() differs from the tuple of the other elements");
        EXPECT(!(rest == t) && t != rest, "tuple-==-arity", (type_name<T, Ts...>()) << " " << ctx << ": equal to its own rest()");
        check_rest(rest, w, ctx);
    }
    else
        EXPECT(rest == Tuple<>() && !(rest != Tuple<>()) && !(rest == t) && rest != t, "tuple-==-empty", type_name<T>() << " " << ctx);
}
template <typename... Ts>
void same(const Tuple<Ts...>& t, const Values<Ts...>& v, const char* key, const std::string& ctx)
{
    EXPECT(t.size() == int(sizeof...(Ts)), std::string("tuple-size:") + key, type_name<Ts...>() << " " << ctx << ": size " << t.size());
    get_all<0>(t, v, key, ctx);
    check_rest(t, v, ctx);
}
template <typename... Ts>
void one(Rng& r)
{
    const auto live = es.live;
    {
        constexpr int N = sizeof...(Ts);
        Values<Ts...> v;
        for (int& x : v)
            x = r.range(-3, 60);
        const std::string ctx = show_keys(v);
        NOTE(type_name<Ts...>() << " " << ctx);
        OP("Tuple construction");
        Tuple<Ts...> t = build<Ts...>(v);
        same(t, v, "construct", ctx);
        OP("make_tuple");
        auto m = build<Ts...>(v, true);
        EXPECT((std::is_same_v<decltype(pyincpp::make_tuple(std::declval<const Ts&>()...)), Tuple<Ts...>>), "make_tuple-type", type_name<Ts...>());
        same(m, v, "make_tuple", ctx);
        EXPECT(t == m && m == t && !(t != m), "tuple-==", type_name<Ts...>() << " " << ctx << ": equal elements, but not equal");
        EXPECT(t == t && !(t != t), "tuple-==", type_name<Ts...>() << " " << ctx << ": not equal to itself");
        // one position differs
        for (int i = 0; i < N; ++i)
        {
            Values<Ts...> w = v;
            w[i] += r.range(1, 3);
            Tuple<Ts...> u = build<Ts...>(w);
            OP("Tuple ==");
            EXPECT(!(t == u) && !(u == t) && t != u && u != t, "tuple-==", type_name<Ts...>() << " " << ctx << ": equal although element " << i << " is " << w[i]);
            mon::evaluated(4);
            OP("Tuple assignment");
            Tuple<Ts...> c = t;
            c = u;
            same(c, w, "assignment", ctx);
            same(u, w, "assignment source", ctx);
            EXPECT(c == u, "tuple-==", type_name<Ts...>() << " " << ctx << ": a copy is not equal");
            std::swap(c, t);
            same(t, w, "swap", ctx);
            same(c, v, "swap", ctx);
            std::swap(c, t);
        }
        OP("Tuple copy and move");
        Tuple<Ts...> c = t;
        same(c, v, "copy", ctx);
        Tuple<Ts...> d = std::move(c);
        same(d, v, "move", ctx);
        c = d;
        same(c, v, "assignment to a moved-from", ctx);
        c = std::move(d);
        same(c, v, "move assignment", ctx);
        t = *&t;
        same(t, v, "self assignment", ctx);
        // the same values, another type
        Tuple<Ts..., int> longer = [&]<std::size_t... I>(std::index_sequence<I...>) { return Tuple<Ts..., int>(As<Ts>::make(v[I])..., 1); }(std::index_sequence_for<Ts...>{});
        EXPECT(!(t == longer) && !(longer == t) && t != longer && longer != t, "tuple-==-arity", type_name<Ts...>() << " " << ctx << ": equal to a longer one");
        EXPECT(!(t == Tuple<>()) && !(Tuple<>() == t) && t != Tuple<>() && Tuple<>() != t, "tuple-==-empty", type_name<Ts...>() << " " << ctx);
        mon::evaluated(8);
        if (r.chance(1, 4))
            prefixes<1>(t, v, type_name<Ts...>() + " " + ctx);
        if (N > 1)
            mon::nontrivial(mon::hash_str(type_name<Ts...>() + ctx));
        SAMPLE(type_name<Ts...>().c_str(), ctx);
    }
    EXPECT(es.live == live, "tuple-elements-leaked", type_name<Ts...>() << " leaves " << es.live - live << " elements");
    check_canaries("tuple", type_name<Ts...>());
}
// element types that only differ in type
void types(Rng& r)
{
    const int a = r.range(0, 50), b = r.range(0, 50);
    OP("Tuple == across types");
    const Tuple<int, int> ii(a, b);
    const Tuple<int, long> il(a, b);
    const Tuple<long, int> li(a, b);
    const Tuple<int, double> id(a, b);
    const Tuple<unsigned, int> ui(a, b);
    auto diff = [&](const auto& x, const auto& y)
    {
        EXPECT(!(x == y) && !(y == x) && x != y && y != x, "tuple-==-types", "(" << a << ", " << b << ") of different element types are equal");
        mon::evaluated(4);
    };
    diff(ii, il), diff(ii, li), diff(ii, id), diff(il, li), diff(ui, ii), diff(il, id);
    diff(Tuple<int>(a), Tuple<long>(a));
    diff(Tuple<int, Str>(a, "x"), Tuple<int, std::string>(a, "x"));
    diff(Tuple<int, int, int>(a, b, a), Tuple<int, int>(a, b));
    diff(Tuple<int, int, int>(a, b, a), Tuple<int, int, char>(a, b, a));
    diff(Tuple<Tuple<int>, int>(Tuple<int>(a), b), Tuple<int, Tuple<int>>(a, Tuple<int>(b)));
    EXPECT(Tuple<>() == Tuple<>() && !(Tuple<>() != Tuple<>()) && Tuple<>().size() == 0, "tuple-==-empty", "two empty tuples");
    EXPECT(pyincpp::make_tuple() == Tuple<>(), "tuple-==-empty", "make_tuple()");
    const Tuple<int, char, double> ct(7, 'x', 0.5);
    EXPECT((ct.size() == 3 && ct.get<0>() == 7 && ct.get<1>() == 'x' && ct.get<2>() == 0.5 && ct == Tuple<int, char, double>(7, 'x', 0.5) && ct != Tuple<int, char, double>(7, 'y', 0.5)), "tuple-get:small", "(7, 'x', 0.5)");
    mon::nontrivial(mon::hash_mix(a, b));
}
// elements whose equality is not the equality of their representations
struct Padded
{
    char c;
    long v;
    short w;
    bool operator==(const Padded&) const = default;
};
struct NoCase
{
    char c, junk;
    bool operator==(const NoCase& o) const { return std::tolower(c) == std::tolower(o.c); }
};
struct Never
{
    long v;
    bool operator==(const Never&) const { return false; }
};
struct Modulo
{
    long long v;
    bool operator==(const Modulo& o) const { return v % 10 == o.v % 10; }
};
template <typename T>
T loose(Rng& r)
{
    if constexpr (std::is_floating_point_v<T>)
        return r.of<T>({T(0), -T(0), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), T(1), std::nextafter(T(1), T(2)), std::numeric_limits<T>::denorm_min()});
    else if constexpr (std::is_same_v<T, Padded>)
    {
        Padded p;
        std::memset(static_cast<void*>(&p), int(r.range(0, 255)), sizeof p);
        p.c = char(r.range(0, 1)), p.v = r.range(0, 1), p.w = short(r.range(0, 1));
        return p;
    }
    else if constexpr (std::is_same_v<T, NoCase>)
        return {r.of<char>({'a', 'A', 'b', 'B'}), char(r.range(0, 255))};
    else if constexpr (std::is_same_v<T, Never>)
        return {r.range(0, 1)};
    else if constexpr (std::is_same_v<T, Modulo>)
        return {r.range(-2, 2) * 10 + r.range(0, 1)};
    else if constexpr (std::is_same_v<T, Complex>)
        return Complex(r.of<double>({0.0, -0.0, 0.3, 0.1 + 0.2, 1}), r.of<double>({0.0, -0.0}));
    else if constexpr (std::is_same_v<T, const char*>)
    {
        static const char one[] = "text", two[] = "text";
        return r.chance(1, 2) ? one : two;
    }
    else
        return T(r.range(0, 2));
}
template <typename... Ts>
void loosely(Rng& r)
{
    const std::tuple<Ts...> a{loose<Ts>(r)...};
    std::tuple<Ts...> b{loose<Ts>(r)...};
    // mostly equal in all positions but a few
    [&]<std::size_t... I>(std::index_sequence<I...>)
    {
        auto bring = [&](auto& x, const auto& y)
        {
            for (int i = 0; i < 30 && !(x == y) && r.chance(19, 20); ++i)
                x = loose<std::remove_cvref_t<decltype(x)>>(r);
        };
        (bring(std::get<I>(b), std::get<I>(a)), ...);
        const bool want = ((std::get<I>(a) == std::get<I>(b)) && ...), self = ((std::get<I>(a) == std::get<I>(a)) && ...);
        const Tuple<Ts...> x(std::get<I>(a)...), y(std::get<I>(b)...);
        std::string bits;
        (bits.append(std::get<I>(a) == std::get<I>(b) ? "=" : "#"), ...);
        NOTE("elements equal: " << bits);
        OP("Tuple == loose");
        EXPECT((x == y) == want && (y == x) == want && (x != y) == !want && (y != x) == !want, "tuple-==-elements", "elements compare " << bits << ", but == gives " << (x == y) << " and != " << (x != y));
        EXPECT((x == x) == self && (x != x) == !self, "tuple-==-elements", "a tuple compared with itself: == gives " << (x == x) << ", its elements " << self);
        const auto m = pyincpp::make_tuple(std::get<I>(a)...);
        EXPECT((x == m) == self && (m == x) == self, "tuple-==-elements", "a tuple compared with make_tuple of the same: == gives " << (x == m) << ", its elements " << self);
        mon::evaluated(8);
        if (sizeof...(Ts) > 1)
            mon::nontrivial(mon::hash_mix(mon::hash_str(bits + typeid(Tuple<Ts...>).name()), want * 2 + self));
    }
    (std::index_sequence_for<Ts...>{});
}
} // namespace
#include <array>
SUITE(arity_1, 300, 8000)
{
    one<int>(rng);
    one<Str>(rng);
    one<ElemN>(rng);
    one<Int>(rng);
    one<List<int>>(rng);
    one<Tuple<int, Str>>(rng);
}
SUITE(arity_2, 300, 8000)
{
    one<int, int>(rng);
    one<int, Str>(rng);
    one<Str, int>(rng);
    one<std::string, Int>(rng);
    one<ElemN, ElemC>(rng);
    one<List<int>, double>(rng);
    one<Tuple<int, Str>, char>(rng);
    one<char, Tuple<int, Str>>(rng);
}
SUITE(arity_3, 300, 8000)
{
    one<int, int, int>(rng);
    one<char, int, double>(rng);
    one<Str, Str, Str>(rng);
    one<Fraction, Int, List<int>>(rng);
    one<ElemT, int, ElemN>(rng);
    one<std::string, char, std::string>(rng);
}
SUITE(arity_4_to_6, 300, 8000)
{
    one<int, int, int, int>(rng);
    one<char, double, char, double>(rng);
    one<int, Str, int, Str>(rng);
    one<Int, Fraction, Str, List<int>, char>(rng);
    one<ElemC, ElemC, ElemC, ElemC, ElemC>(rng);
    one<char, int, char, Str, double, Tuple<int, Str>>(rng);
}
SUITE(arity_9, 200, 5000)
{
    one<int, int, int, int, int, int, int, int, int>(rng);
    one<char, Str, double, int, Int, Fraction, ElemN, std::string, List<int>>(rng);
}
SUITE(arity_12_to_20, 60, 1500)
{
    one<int, int, int, int, int, int, int, int, int, int, int, int>(rng);
    one<Str, int, Str, int, Str, int, Str, int, Str, int, Str, int, Str>(rng);
    one<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>(rng);
}
SUITE(across_types, 1000, 20000) { types(rng); }
SUITE(loose_equality, 3000, 60000)
{
    loosely<double>(rng);
    loosely<int, double>(rng);
    loosely<double, double, int>(rng);
    loosely<float, long double, double>(rng);
    loosely<long double, int>(rng);
    loosely<Padded, int>(rng);
    loosely<int, Padded, Padded>(rng);
    loosely<NoCase, NoCase>(rng);
    loosely<Modulo, Modulo, int>(rng);
    loosely<int, Never>(rng);
    loosely<Complex, int>(rng);
    loosely<const char*, int>(rng);
    loosely<char, short, int, long, float, double, Padded, NoCase, Modulo>(rng);
}
