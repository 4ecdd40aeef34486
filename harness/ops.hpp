// A table of (nearly) every public operation of every type, run over a "world" of objects. An operation draws its
// arguments from the world (so that they are now and then an object itself or one of its own elements) or makes new
// ones, tells beforehand whether its precondition holds, and writes what it returned. The harnesses differ in what they
// watch: sanitizers, snapshots of the other objects, precondition against outcome, other threads, other compilers.
#pragma once
#include "mon.hpp"
#include "fracx.hpp"
#include "dump.hpp"
#include "pyincpp.hpp"
#include <algorithm>
#include <array>
#include <climits>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <typeinfo>
#include <unordered_set>

namespace ops
{
using namespace pyincpp;

// ---- new values --------------------------------------------------------------------------------------
// All generators avoid unspecified evaluation order (one draw per statement), so that every compiler draws the same.
template <typename T>
struct Gen;
inline bool large = false; // a mode in which containers, strings and numbers of many elements are common
struct Large
{
    bool was;
    explicit Large(bool on = true)
        : was(large)
    {
        large = on;
    }
    ~Large() { large = was; }
};
inline thread_local int depth = 0;      // inside a container being made: those in it are small
inline int gen_int(Rng& r)
{
    switch (r.range(0, 9))
    {
        case 0: return r.of<int>({INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, INT_MAX / 2, INT_MIN / 2, -1, 1 << 16, -(1 << 16), 46341});
        case 1: return int(r.range(INT_MIN, INT_MAX));
        default: return large ? int(r.range(-2000, 2000)) : int(r.range(-9, 9));
    }
}
template <>
struct Gen<int>
{
    static int make(Rng& r) { return gen_int(r); }
};
template <>
struct Gen<Int>
{
    static Int make(Rng& r)
    {
        const int kind = int(r.range(0, 9));
        if (kind < 4)
            return Int(int(r.range(-12, 12)));
        if (kind < 6)
            return Int(gen_int(r));
        const int n = int(large && depth == 0 ? r.range(1, 900) : kind < 9 ? r.range(1, 40) : r.range(1, 300));
        std::string s = r.chance(1, 2) ? "-" : "";
        const int fill = int(r.range(0, 3));
        for (int i = 0; i < n; ++i)
            s += fill == 0 ? '9' : fill == 1 ? (i ? '0' : '1') : char('0' + r.range(i == 0, 9));
        return Int(s.c_str());
    }
};
template <>
struct Gen<Fraction>
{
    static Fraction make(Rng& r)
    {
        if (r.chance(1, 6))
        {
            const auto p = gen_raw(r);
            return Fraction(p.first, p.second);
        }
        const int n = int(r.range(-40, 40));
        const int d = int(r.range(1, 30));
        return Fraction(n, r.chance(1, 3) ? -d : d);
    }
};
template <>
struct Gen<Complex>
{
    static Complex make(Rng& r)
    {
        const double a = r.chance(1, 3) ? double(r.range(-9, 9)) : (r.unit() - 0.5) * 100;
        const double b = r.chance(1, 3) ? double(r.range(-9, 9)) : (r.unit() - 0.5) * 100;
        return Complex(a, b);
    }
};
template <>
struct Gen<Str>
{
    static Str make(Rng& r)
    {
        const int n = int(r.chance(1, 8) ? r.range(0, 60) : large && depth == 0 && r.chance(1, 2) ? r.range(0, 700) : r.range(0, 9));
        const int kind = int(r.range(0, 8));
        std::string s;
        if (kind > 6) // long runs
        {
            for (int i = int(r.range(1, 3)); i > 0; --i)
            {
                const char ch = r.of<char>({' ', ' ', '\n', '\0', 'a', '0', '.', '-', char(0xff)});
                const int run = int(r.chance(1, 6) ? r.range(50, 300) : r.range(1, kind == 7 ? 2 : 20));
                s.append(std::size_t(run), ch);
            }
            return s;
        }
        for (int i = 0; i < n; ++i)
            switch (kind)
            {
                case 0: s += char(r.range(0, 255)); break;
                case 1: s += char('a' + r.range(0, 1)); break;
                case 2: s += r.of<char>({'a', 'B', ' ', '\t', 'Z', 'z', '\n', '\0', '{', '}'}); break;
                case 3: s += r.of<char>({char(0x80), char(0xff), char(0xc3), 'a', '\x7f', '\x01'}); break;
                case 4: s += char('0' + r.range(0, 9)); break;
                case 5: s += r.of<char>({'0', '1', '9', '.', 'e', '-', '+', ' '}); break;
                default: s += char(r.range(0x20, 0x7d));
            }
        return s;
    }
};
template <typename T>
std::vector<T> gen_vec(Rng& r)
{
    const int kind = int(r.range(0, 19));
    const int n = int(large && depth == 0 && kind > 10 ? r.range(8, r.of<int>({40, 150, 700})) : kind == 0 ? r.range(20, 70) : kind < 4 ? 0 : r.range(1, 7));
    std::vector<T> v;
    struct Deeper
    {
        Deeper() { ++depth; }
        ~Deeper() { --depth; }
    } deeper;
    for (int i = 0; i < n; ++i)
        v.push_back(i > 0 && r.chance(1, 4) ? T(v[r.range(0, i - 1)]) : Gen<T>::make(r));
    return v;
}
template <typename T>
struct Gen<List<T>>
{
    static List<T> make(Rng& r) { return List<T>(gen_vec<T>(r)); }
};
template <typename T>
struct Gen<Deque<T>>
{
    static Deque<T> make(Rng& r)
    {
        const auto v = gen_vec<T>(r);
        return Deque<T>(v.begin(), v.end());
    }
};
template <typename T>
struct Gen<Set<T>>
{
    static Set<T> make(Rng& r)
    {
        const auto v = gen_vec<T>(r);
        return Set<T>(v.begin(), v.end());
    }
};
template <typename K, typename V>
struct Gen<Dict<K, V>>
{
    static Dict<K, V> make(Rng& r)
    {
        const auto k = gen_vec<K>(r);
        Dict<K, V> d;
        for (const auto& x : k)
            d.add(x, Gen<V>::make(r));
        return d;
    }
};
template <typename... Ts>
struct Gen<Tuple<Ts...>>
{
    static Tuple<Ts...> make(Rng& r)
    {
        std::tuple<Ts...> t{Gen<Ts>::make(r)...}; // braces: left to right
        return std::apply([](const Ts&... x) { return Tuple<Ts...>(x...); }, t);
    }
};

// ---- the world -----------------------------------------------------------------------------------------
template <typename T, int N>
struct Box
{
    using type = T;
    std::array<T, N> v;
};
template <typename T>
struct NoDefault // a Tuple has no default constructor
{
};
using Mixed = Tuple<Int, Str, List<int>>;
using Pt = Tuple<int, Fraction>;
struct World
{
    using Boxes = std::tuple<Box<int, 3>, Box<Int, 5>, Box<Fraction, 4>, Box<Complex, 4>, Box<Str, 5>, Box<List<int>, 3>, Box<List<Str>, 3>, Box<List<Int>, 2>,
                             Box<List<List<int>>, 2>, Box<Deque<int>, 3>, Box<Deque<Str>, 2>, Box<Set<int>, 3>, Box<Set<Str>, 2>, Box<Set<List<int>>, 2>,
                             Box<Dict<int, Str>, 2>, Box<Dict<Str, Int>, 2>, Box<Mixed, 2>, Box<Pt, 2>>;
    Boxes boxes;
    template <typename T>
    static constexpr int count()
    {
        int n = 0;
        [&]<typename... B>(std::type_identity<std::tuple<B...>>)
        { ((std::is_same_v<typename B::type, T> ? n = int(std::tuple_size_v<decltype(B::v)>) : 0), ...); }(std::type_identity<Boxes>{});
        return n;
    }
    template <typename T>
    auto& box()
    {
        return std::get<Box<T, count<T>()>>(boxes).v;
    }
    template <typename T>
    auto& box() const
    {
        return std::get<Box<T, count<T>()>>(boxes).v;
    }
    template <typename... B, std::size_t... I>
    static std::tuple<B...> gen_boxes(Rng& r, std::type_identity<std::tuple<B...>>)
    {
        return std::tuple<B...>{gen_box<typename B::type, int(std::tuple_size_v<decltype(B::v)>)>(r, std::make_index_sequence<std::tuple_size_v<decltype(B::v)>>{})...};
    }
    template <typename T, int N, std::size_t... I>
    static Box<T, N> gen_box(Rng& r, std::index_sequence<I...>)
    {
        return Box<T, N>{{((void)I, Gen<T>::make(r))...}};
    }
    explicit World(Rng& r)
        : boxes(gen_boxes(r, std::type_identity<Boxes>{}))
    {
    }
    template <typename F>
    void each(F&& f) const
    {
        std::apply([&](const auto&... b) { (std::for_each(b.v.begin(), b.v.end(), f), ...); }, boxes);
    }
    std::vector<std::string> snapshot() const
    {
        std::vector<std::string> s;
        each([&](const auto& x) { s.push_back(dumps(x)); });
        return s;
    }
    std::vector<const void*> addresses() const
    {
        std::vector<const void*> s;
        each([&](const auto& x) { s.push_back(&x); });
        return s;
    }
};

// every object of type T reachable in a value
template <typename T, typename X>
void collect(const X& x, std::vector<const T*>& out)
{
    if constexpr (std::is_same_v<T, X>)
        out.push_back(&x);
    else if constexpr (std::is_same_v<X, List<int>> || std::is_same_v<X, List<Str>> || std::is_same_v<X, List<Int>> || std::is_same_v<X, List<List<int>>> ||
                       std::is_same_v<X, Deque<int>> || std::is_same_v<X, Deque<Str>> || std::is_same_v<X, Set<int>> || std::is_same_v<X, Set<Str>> || std::is_same_v<X, Set<List<int>>>)
    {
        for (const auto& e : x)
            collect<T>(e, out);
    }
    else if constexpr (std::is_same_v<X, Dict<int, Str>> || std::is_same_v<X, Dict<Str, Int>>)
    {
        for (const auto& e : x)
        {
            collect<T>(e.first, out);
            collect<T>(e.second, out);
        }
    }
}

// a value near x: a part of it, or all of it but for one element
template <typename T>
T related(Rng& r, const T& x)
{
    if constexpr (std::is_same_v<T, Int>)
        switch (r.range(0, 4))
        {
            case 0: return x + 1;
            case 1: return x - 1;
            case 2: return -x;
            case 3: return x * 10;
            default: return x / 10;
        }
    else if constexpr (requires { x.begin() == x.end(); })
    {
        const long long n = std::distance(x.begin(), x.end());
        long long from = 0, to = n, skip = -1;
        switch (r.range(0, 5))
        {
            case 0: to = r.range(0, n); break;
            case 1: from = r.range(0, n); break;
            case 2: from = r.range(0, n), to = std::min(n, from + 1); break;
            case 3: to = std::min(n, 1LL); break;
            case 4: from = std::max(0LL, n - 1); break;
            default: skip = r.range(0, n);
        }
        using E = std::decay_t<decltype(*x.begin())>;
        std::vector<E> v;
        long long i = 0;
        for (const auto& e : x)
        {
            if (i >= from && i < to && i != skip)
                v.push_back(e);
            ++i;
        }
        if (!v.empty() && r.chance(1, 6))
            v.push_back(E(v[0]));
        if constexpr (std::is_same_v<T, Str>)
            return Str(std::string(v.begin(), v.end()));
        else if constexpr (requires { x.keys(); })
        {
            T d;
            d.extend(v.begin(), v.end());
            return d;
        }
        else
            return T(v.begin(), v.end());
    }
    else
        return x;
}

struct Ctx
{
    Rng& r;
    std::ostream& o;
    bool copy_args = false; // hand over deep copies of arguments that live in the world
    int pre = -1;           // the precondition of the call made: 0 broken, 1 holds, -1 not told
    const char* opname = "";
    std::vector<const void*> touched = {};
    std::vector<std::shared_ptr<void>> kept = {};
    const void* last = nullptr; // the object operated on
    const std::type_info* last_type = nullptr;

    template <typename T>
    const T& hold(T v)
    {
        auto p = std::make_shared<T>(std::move(v));
        kept.push_back(p);
        return *p;
    }
    // an argument: a new value, or an object of the world, or an element within one (near: the object operated on)
    template <typename T, typename X = int>
    const T& arg(const World& w, const X* near = nullptr)
    {
        if (last && *last_type == typeid(T) && r.chance(1, 5))
            return hold(related(r, *static_cast<const T*>(last)));
        const int k = int(r.range(0, 9));
        std::vector<const T*> cand;
        if (near && k >= 3)
        {
            collect<T>(*near, cand);
            if (k >= 8)
                cand.clear();
        }
        if (cand.empty() && k >= 4)
            w.each([&](const auto& x) { collect<T>(x, cand); });
        if (cand.empty())
            return hold(Gen<T>::make(r));
        const T& x = *cand[r.range(0, (long long)cand.size() - 1)];
        return copy_args ? hold(T(x)) : x;
    }
    // the object to operate on
    template <typename T>
    T& target(World& w)
    {
        auto& b = w.box<T>();
        T& x = b[r.range(0, (long long)b.size() - 1)];
        touched.push_back(&x);
        last = &x, last_type = &typeid(T);
        return x;
    }
    template <typename T>
    const T& target(const World& w)
    {
        auto& b = w.box<T>();
        const T& x = b[r.range(0, (long long)b.size() - 1)];
        last = &x, last_type = &typeid(T);
        return x;
    }
    template <typename T>
    const T& other(const World& w) // an object of the world as argument
    {
        if (last && *last_type == typeid(T) && r.chance(1, 4))
            return hold(related(r, *static_cast<const T*>(last)));
        auto& b = w.box<T>();
        const T& x = b[r.range(0, (long long)b.size() - 1)];
        return copy_args ? hold(T(x)) : x;
    }
    int index(int n) // around the bounds of n elements, or anything
    {
        return r.chance(1, 6) ? gen_int(r) : int(r.range(-n - 2, n + 2));
    }
    template <typename T>
    void out(const T& v)
    {
        dump(o, v);
        o << ";";
    }
};
// a call with a value that is written down
#define RET(EXPR)                              \
    do                                         \
    {                                          \
        decltype(auto) ret_ = (EXPR);          \
        c.out(ret_);                           \
    } while (0)

struct ConstOp
{
    const char* name;
    void (*fn)(const World&, Ctx&);
};
struct MutOp
{
    const char* name;
    void (*fn)(World&, Ctx&);
};
inline std::vector<ConstOp>& const_ops()
{
    static std::vector<ConstOp> v;
    return v;
}
inline std::vector<MutOp>& mut_ops()
{
    static std::vector<MutOp> v;
    return v;
}
#define COP(NAME) const_ops().push_back({NAME, [](const World& w, Ctx& c) { [[maybe_unused]] Rng& r = c.r;
#define MOP(NAME) mut_ops().push_back({NAME, [](World& w, Ctx& c) { [[maybe_unused]] Rng& r = c.r;
#define END }});

inline std::string printed(const auto& x)
{
    std::ostringstream o;
    o << x;
    return o.str();
}
inline const char* intern(const std::string& s)
{
    static std::set<std::string> names;
    return names.insert(s).first->c_str();
}

// operations every type has
template <typename T>
void common_ops(const std::string& tn)
{
    static std::string t;
    t = tn + " ";
    auto nm = [&](const char* op) { return intern(t + op); };
    COP(nm("copy construct")) const T& x = c.target<T>(w); c.pre = 1; T y(x); c.out(y); END
    COP(nm("==")) const T& x = c.target<T>(w); const T& y = c.other<T>(w); c.pre = 1; RET(x == y); RET(x != y); END
    COP(nm("print")) const T& x = c.target<T>(w); c.pre = 1;
        if constexpr (std::is_same_v<T, Complex>) // digits of a double may differ between configurations
            printed(x);
        else
            RET(printed(x));
    END
    MOP(nm("= copy")) T& x = c.target<T>(w); const T& y = c.other<T>(w); c.pre = 1; T& z = (x = y); RET(&z == &x); END
    MOP(nm("= new")) T& x = c.target<T>(w); T y = Gen<T>::make(r); c.pre = 1; x = std::move(y); END
    MOP(nm("= moved copy")) T& x = c.target<T>(w); T y(c.other<T>(w)); c.pre = 1; x = std::move(y); END
    MOP(nm("= element inside")) T& x = c.target<T>(w); const T& y = c.arg<T>(w); c.pre = 1; x = y; END
    MOP(nm("swap")) T& x = c.target<T>(w); T& y = c.target<T>(w); c.pre = 1; if (&x != &y) std::swap(x, y); END
    MOP(nm("move through")) T& x = c.target<T>(w); c.pre = 1; T y(std::move(x)); c.out(y); x = std::move(y); END
}
template <typename T>
void order_ops(const std::string& tn)
{
    auto nm = [&](const char* op) { return intern(tn + " " + op); };
    COP(nm("order")) const T& x = c.target<T>(w); const T& y = c.arg<T>(w); c.pre = 1; RET(x < y); RET(x <= y); RET(x > y); RET(x >= y); RET(x == y); RET((x <=> y) < 0); END
}
template <typename T>
void hash_ops(const std::string& tn)
{
    auto nm = [&](const char* op) { return intern(tn + " " + op); };
    COP(nm("hash")) const T& x = c.target<T>(w); const T& y = c.arg<T>(w); c.pre = 1; const auto hx = std::hash<T>{}(x); const auto hy = std::hash<T>{}(y); RET(!(x == y) || hx == hy); RET(hx == std::hash<T>{}(T(x))); END
}
// iteration in both directions
template <typename T>
void iter_ops(const std::string& tn)
{
    auto nm = [&](const char* op) { return intern(tn + " " + op); };
    COP(nm("iterate")) const T& x = c.target<T>(w); c.pre = 1; int n = 0; for (auto it = x.begin(); it != x.end(); ++it, ++n) c.out(*it); for (auto it = x.rbegin(); it != x.rend(); ++it, --n) c.out(*it); RET(n); RET(x.size()); RET(x.is_empty()); END
}

inline bool small(const Int& x, int digits)
{
    return x.digits() <= digits;
}
template <typename T>
void clamp_size(T& x, int n) // keep the world small
{
    if (x.size() > (large ? 3 * n : n))
        x.clear();
}
inline void clamp(Int& x)
{
    if (x.digits() > (large ? 2000 : 600))
        x = 7;
}
// a fraction operation whose exact result is representable, and its steps
inline bool frac_fits(const Fraction& a, const Fraction& b, char op)
{
    const Q x = q_of(a), y = q_of(b);
    switch (op)
    {
        case '+': return fits(mkq(x.n * y.d + y.n * x.d, x.d * y.d));
        case '-': return fits(mkq(x.n * y.d - y.n * x.d, x.d * y.d));
        case '*': return fits(mkq(x.n * y.n, x.d * y.d));
        case '/': return y.n == 0 || fits(mkq(x.n * y.d, x.d * y.n));
        case '%': return y.n == 0 || fits(mkq((x.n * y.d) % (y.n * x.d), x.d * y.d));
        default: return false;
    }
}
inline bool frac_small(const Fraction& a)
{
    return std::abs((long long)a.numerator()) <= 1200 && a.denominator() <= 1200;
}
// the number an integer type converts exactly
template <typename T>
bool int_fits(const Int& x)
{
    return x >= Int(std::to_string(std::numeric_limits<T>::min()).c_str()) && x <= Int(std::to_string(std::numeric_limits<T>::max()).c_str());
}
// Int literal: optional sign and digits
inline bool is_int_literal(const std::string& s)
{
    std::size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
    if (i == s.size())
        return false;
    for (; i < s.size(); ++i)
        if (s[i] < '0' || s[i] > '9')
            return false;
    return true;
}

inline void int_ops()
{
    COP("Int + - *") const Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w); c.pre = 1; RET(x + y); RET(x - y); RET(x * y); END
    COP("Int /") const Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w); c.pre = !y.is_zero(); RET(x / y); END
    COP("Int %") const Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w); c.pre = !y.is_zero(); RET(x % y); END
    COP("Int unary") const Int& x = c.target<Int>(w); c.pre = 1; RET(+x); RET(-x); RET(x.abs()); END
    COP("Int queries") const Int& x = c.target<Int>(w); c.pre = 1; RET(x.digits()); RET(x.is_zero()); RET(x.is_positive()); RET(x.is_negative()); RET(x.is_even()); RET(x.is_odd()); END
    COP("Int is_prime") const Int& x = c.target<Int>(w); c.pre = 1; if (small(x, 6)) RET(x.is_prime()); END
    COP("Int next_prime") const Int& x = c.target<Int>(w); c.pre = 1; if (small(x, 6)) RET(x.next_prime()); END
    COP("Int factorial") const Int& x = c.target<Int>(w); if (small(x, 2) || x.is_negative()) { c.pre = !x.is_negative(); RET(x.factorial()); } END
    COP("Int to_integer") const Int& x = c.target<Int>(w); c.pre = 1;
        if (int_fits<int>(x)) RET(x.to_integer<int>());
        if (int_fits<long long>(x)) RET(x.to_integer<long long>());
    END
    COP("Int sqrt") const Int& x = c.target<Int>(w); c.pre = !x.is_negative(); RET(Int::sqrt(x)); END
    COP("Int pow") const Int& x = c.arg<Int>(w); const int e = int(r.range(-3, 24)); c.pre = e >= 0 || !x.is_zero(); const Int ee(e); if (small(x, 40)) RET(Int::pow(x, ee)); END
    COP("Int pow mod") const Int& x = c.target<Int>(w); const Int& e = c.arg<Int>(w); const Int& m = c.arg<Int>(w);
        if (!m.is_zero() && small(e, 20) && small(x, 60) && small(m, 60)) { c.pre = !e.is_negative() || !x.is_zero(); RET(Int::pow(x, e, m)); } END
    COP("Int log") const Int& x = c.target<Int>(w); const Int& b = c.arg<Int>(w); c.pre = x.is_positive() && b >= 2; if (small(x, 120) || c.pre == 0) RET(Int::log(x, b)); END
    COP("Int gcd lcm") const Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w); c.pre = 1; if (small(x, 80) && small(y, 80)) { RET(Int::gcd(x, y)); RET(Int::lcm(x, y)); } END
    COP("Int random") const int d = int(r.range(-3, 60)); c.pre = d >= -1; const Int x = Int::random(d); RET(!x.is_negative()); END
    COP("Int from text") const std::string s = std::string(c.arg<Str>(w).data()); c.pre = is_int_literal(s); Int x(s.c_str()); c.out(x); END
    MOP("Int +=") Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w, &x); c.pre = 1; Int& z = (x += y); RET(&z == &x); clamp(x); END
    MOP("Int -=") Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w, &x); c.pre = 1; Int& z = (x -= y); RET(&z == &x); clamp(x); END
    MOP("Int *=") Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w, &x); c.pre = 1; Int& z = (x *= y); RET(&z == &x); clamp(x); END
    MOP("Int /=") Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w, &x); c.pre = !y.is_zero(); Int& z = (x /= y); RET(&z == &x); END
    MOP("Int %=") Int& x = c.target<Int>(w); const Int& y = c.arg<Int>(w, &x); c.pre = !y.is_zero(); Int& z = (x %= y); RET(&z == &x); END
    MOP("Int ++") Int& x = c.target<Int>(w); c.pre = 1; Int& z = ++x; RET(&z == &x); END
    MOP("Int --") Int& x = c.target<Int>(w); c.pre = 1; Int& z = --x; RET(&z == &x); END
    MOP("Int = int") Int& x = c.target<Int>(w); const int i = gen_int(r); c.pre = 1; x = i; END
    MOP("Int = text") Int& x = c.target<Int>(w); const std::string s = r.chance(1, 2) ? printed(c.other<Int>(w)) : std::string(c.arg<Str>(w).data()); c.pre = is_int_literal(s); x = s.c_str(); END
    MOP("Int >>") Int& x = c.target<Int>(w); const std::string s = " " + printed(c.other<Int>(w)) + " rest"; std::istringstream in(s); c.pre = 1; in >> x; RET(in.good()); END
}
inline void fraction_ops()
{
    COP("Fraction + - *") const Fraction& x = c.target<Fraction>(w); const Fraction& y = c.arg<Fraction>(w); c.pre = 1; if (frac_fits(x, y, '+')) RET(x + y); if (frac_fits(x, y, '-')) RET(x - y); if (frac_fits(x, y, '*')) RET(x * y); END
    COP("Fraction /") const Fraction& x = c.target<Fraction>(w); const Fraction& y = c.arg<Fraction>(w); if (frac_fits(x, y, '/')) { c.pre = y.numerator() != 0; RET(x / y); } END
    COP("Fraction %") const Fraction& x = c.target<Fraction>(w); const Fraction& y = c.arg<Fraction>(w); if (frac_fits(x, y, '%')) { c.pre = y.numerator() != 0; RET(x % y); } END
    COP("Fraction unary") const Fraction& x = c.target<Fraction>(w); c.pre = 1; RET(+x); if (x.numerator() != INT_MIN) { RET(-x); RET(x.abs()); } RET(Fl{double(x)}); RET(x.numerator()); RET(x.denominator()); END
    COP("Fraction gcd lcm") const Fraction& x = c.target<Fraction>(w); const Fraction& y = c.arg<Fraction>(w); c.pre = 1; if (frac_small(x) && frac_small(y)) { RET(Fraction::gcd(x, y)); RET(Fraction::lcm(x, y)); } END
    COP("Fraction construct") const int n = gen_int(r); const int d = r.chance(1, 5) ? 0 : gen_int(r); if (d == 0 || fits(mkq(n, d))) { c.pre = d != 0; Fraction f(n, d); c.out(f); } END
#define FRAC_MUT(OPR, CH, PRE) MOP("Fraction " #OPR) Fraction& x = c.target<Fraction>(w); const Fraction& y = c.arg<Fraction>(w, &x); if (frac_fits(x, y, CH)) { c.pre = PRE; Fraction& z = (x OPR y); RET(&z == &x); } END
    FRAC_MUT(+=, '+', 1)
    FRAC_MUT(-=, '-', 1)
    FRAC_MUT(*=, '*', 1)
    FRAC_MUT(/=, '/', y.numerator() != 0)
    FRAC_MUT(%=, '%', y.numerator() != 0)
    MOP("Fraction ++ --") Fraction& x = c.target<Fraction>(w); c.pre = 1; const bool up = r.chance(1, 2); if (frac_fits(x, Fraction(1), up ? '+' : '-')) { Fraction& z = up ? ++x : --x; RET(&z == &x); } END
    MOP("Fraction >>") Fraction& x = c.target<Fraction>(w); const std::string s = printed(c.other<Fraction>(w)) + " rest"; std::istringstream in(s); c.pre = 1; in >> x; RET(in.good()); END
}
inline bool czero(const Complex& z)
{
    return std::abs(z.real()) < 2.220446049250313e-16 && std::abs(z.imag()) < 2.220446049250313e-16;
}
inline bool cmid(const Complex& z) // keeps every intermediate result finite
{
    const double a = std::hypot(z.real(), z.imag());
    return a < 1e9 && (a > 1e-9 || a == 0);
}
inline void complex_ops()
{
    COP("Complex + - *") const Complex& x = c.target<Complex>(w); const Complex& y = c.arg<Complex>(w); c.pre = 1; RET(x + y); RET(x - y); RET(x * y); RET(x == y); END
    COP("Complex /") const Complex& x = c.target<Complex>(w); const Complex& y = c.arg<Complex>(w); c.pre = !czero(y); const Complex q = x / y; c.out(q); END
    COP("Complex unary") const Complex& x = c.target<Complex>(w); c.pre = 1; RET(+x); RET(-x); RET(x.conjugate()); RET(Fl{x.abs()}); RET(Fl{x.arg()}); RET(Fl{x.real()}); RET(Fl{x.imag()}); END
    COP("Complex pow") const Complex& x = c.target<Complex>(w); const int n = int(r.range(-3, 6)); c.pre = n == 0 || !czero(x); const Complex e(n); if (cmid(x)) { RET(Complex::pow(x, e)); } END
#define CPX_MUT(OPR, PRE) MOP("Complex " #OPR) Complex& x = c.target<Complex>(w); const Complex& y = c.arg<Complex>(w, &x); if (cmid(x) && cmid(y)) { c.pre = PRE; Complex& z = (x OPR y); RET(&z == &x); if (!cmid(x)) x = Complex(1, 2); } END
    CPX_MUT(+=, 1)
    CPX_MUT(-=, 1)
    CPX_MUT(*=, 1)
    CPX_MUT(/=, !czero(y))
    MOP("Complex >>") Complex& x = c.target<Complex>(w); const int a = int(r.range(-99, 99)); const int b = int(r.range(0, 99)); std::istringstream in(std::to_string(a) + "+" + std::to_string(b) + "j rest"); c.pre = 1; in >> x; RET(in.good()); END
}
inline bool slice_pre(int n, int a, int b, int s)
{
    return s != 0 && a >= -n && a < n && b >= -n - 1 && b <= n;
}
inline bool range_pre(int n, int a, int b)
{
    return a >= 0 && a <= n && b >= a && b <= n;
}
inline int gen_times(Rng& r, int n) // a repeat count that is small, or must be rejected
{
    switch (r.range(0, 5))
    {
        case 0: return r.of<int>({-1, INT_MIN, -7});
        case 1: return n >= 2 ? r.of<int>({INT_MAX, INT_MAX / n + 1, INT_MAX - 1}) : int(r.range(0, 5));
        default: return int(r.range(0, 4));
    }
}
inline bool times_pre(int n, int t)
{
    return t >= 0 && (long long)n * t <= INT_MAX;
}
// what the state machine of to_integer accepts: blanks, a sign, digits of the base, blanks
inline bool is_based_literal(const Str& str, int base)
{
    const std::string s(str.begin(), str.end());
    auto blank = [](char ch) { return ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'; };
    std::size_t i = 0, e = s.size();
    while (i < e && blank(s[i]))
        ++i;
    while (e > i && blank(s[e - 1]))
        --e;
    if (i < e && (s[i] == '+' || s[i] == '-'))
        ++i;
    if (i == e)
        return false;
    for (; i < e; ++i)
    {
        const char ch = s[i];
        const int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
        if (d >= base)
            return false;
    }
    return true;
}
inline void str_ops()
{
    COP("Str find") const Str& x = c.target<Str>(w); const Str& y = c.arg<Str>(w); c.pre = 1; RET(x.find(y)); RET(x.contains(y)); RET(x.count(y)); RET(x.starts_with(y)); RET(x.ends_with(y)); END
    COP("Str find from") const Str& x = c.target<Str>(w); const Str& y = c.arg<Str>(w); const int a = c.index(x.size()); const int b = c.index(x.size()); c.pre = a >= 0 ? 1 : -1; RET(x.find(y, a, b)); RET(x.contains(y, a, b)); END
    COP("Str []") const Str& x = c.target<Str>(w); const int i = c.index(x.size()); c.pre = i >= -x.size() && i < x.size(); RET(x[i]); END
    COP("Str to_decimal") const Str& x = c.target<Str>(w); RET(Fl{x.to_decimal()}); END
    COP("Str to_integer") const Str& x = c.target<Str>(w); const int base = r.chance(1, 6) ? gen_int(r) : int(r.range(2, 36)); c.pre = base >= 2 && base <= 36 && is_based_literal(x, base); RET(x.to_integer(base)); END
    COP("Str rotate") const Str& x = c.target<Str>(w); const int n = c.index(x.size()); c.pre = 1; RET(x >> n); RET(x << n); END
    COP("Str case reverse") const Str& x = c.target<Str>(w); c.pre = 1; RET(x.reverse()); RET(x.lower()); RET(x.upper()); END
    COP("Str erase") const Str& x = c.target<Str>(w); const int a = c.index(x.size()); const int b = c.index(x.size()); c.pre = range_pre(x.size(), a, b); RET(x.erase(a, b)); END
    COP("Str replace") const Str& x = c.target<Str>(w); const Str& y = c.arg<Str>(w); const Str& z = c.arg<Str>(w); c.pre = 1; RET(x.replace(y, z)); END
    COP("Str strip") const Str& x = c.target<Str>(w); const signed char ch = (signed char)r.range(-128, 127); c.pre = 1; RET(x.strip()); RET(x.strip(ch)); if (x.size()) { const signed char ch2 = (signed char)x[0]; RET(x.strip(ch2)); } END
    COP("Str slice") const Str& x = c.target<Str>(w); const int a = c.index(x.size()); const int b = c.index(x.size()); const int s = c.index(3); c.pre = slice_pre(x.size(), a, b, s); RET(x.slice(a, b, s)); END
    COP("Str +") const Str& x = c.target<Str>(w); const Str& y = c.arg<Str>(w); c.pre = 1; const char ch = char(r.range(0, 255)); RET(x + y); RET(x + ch); END
    COP("Str *") const Str& x = c.target<Str>(w); const int t = gen_times(r, x.size()); c.pre = times_pre(x.size(), t); RET(x * t); END
    COP("Str split") const Str& x = c.target<Str>(w); const Str& y = c.arg<Str>(w); const bool k = r.chance(1, 2); c.pre = y.size() > 0; RET(x.split(y, k)); END
    COP("Str split join") const Str& x = c.target<Str>(w); const Str& y = c.arg<Str>(w); c.pre = y.size() > 0; const List<Str> l = x.split(y, true); RET(y.join(l) == x); END
    COP("Str join") const Str& x = c.target<Str>(w); const List<Str>& l = c.other<List<Str>>(w); c.pre = 1; RET(x.join(l)); END
    COP("Str format") const Str& x = c.target<Str>(w); const Int& a = c.other<Int>(w); const Str& b = c.arg<Str>(w); c.pre = 1; RET(x.format(a, b)); RET((x + "{}-{}").format(a, 5)); RET(x.format()); END
    COP("Str data") const Str& x = c.target<Str>(w); c.pre = 1; RET(std::string(x.data(), x.size() + 1)); END
    MOP("Str >>") Str& x = c.target<Str>(w); const Str& y = c.arg<Str>(w); std::string s(y.begin(), y.end()); std::istringstream in(s + "\nrest"); c.pre = 1; in >> x; RET(bool(in)); END
}
template <typename T>
bool even(const T& v)
{
    return dumps(v).size() % 2 == 0;
}
template <typename T>
void list_ops(const std::string& tn)
{
    using L = List<T>;
    auto nm = [&](const char* op) { return intern(tn + " " + op); };
    COP(nm("[]")) const L& x = c.target<L>(w); const int i = c.index(x.size()); c.pre = i >= -x.size() && i < x.size(); RET(x[i]); END
    COP(nm("find")) const L& x = c.target<L>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; RET(x.find(e) - x.begin()); RET(x.index(e)); RET(x.contains(e)); RET(x.count(e)); END
    COP(nm("index from")) const L& x = c.target<L>(w); const T& e = c.arg<T>(w, &x); const int a = c.index(x.size()); const int b = c.index(x.size()); c.pre = a >= 0 ? 1 : -1; RET(x.index(e, a, b)); RET(x.contains(e, a, b)); END
    COP(nm("slice")) const L& x = c.target<L>(w); const int a = c.index(x.size()); const int b = c.index(x.size()); const int s = c.index(3); c.pre = slice_pre(x.size(), a, b, s); RET(x.slice(a, b, s)); END
    COP(nm("+ - / element")) const L& x = c.target<L>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; RET(x + e); RET(x - e); RET(x / e); END
    COP(nm("+ list")) const L& x = c.target<L>(w); const L& y = c.arg<L>(w); c.pre = 1; RET(x + y); END
    COP(nm("*")) const L& x = c.target<L>(w); const int t = gen_times(r, x.size()); c.pre = times_pre(x.size(), t); RET(x * t); END
    MOP(nm("[] =")) L& x = c.target<L>(w); const int i = c.index(x.size()); const T& e = c.arg<T>(w, &x); c.pre = i >= -x.size() && i < x.size(); x[i] = e; END
    MOP(nm("insert")) L& x = c.target<L>(w); const int i = c.index(x.size()); const T& e = c.arg<T>(w, &x); c.pre = i >= -x.size() && i <= x.size(); x.insert(i, e); clamp_size(x, 300); END
    MOP(nm("remove")) L& x = c.target<L>(w); const int i = c.index(x.size()); c.pre = i >= -x.size() && i < x.size(); RET(x.remove(i)); END
    MOP(nm("+= element")) L& x = c.target<L>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; L& z = (x += e); RET(&z == &x); clamp_size(x, 300); END
    MOP(nm("+= list")) L& x = c.target<L>(w); const L& y = c.arg<L>(w, &x); c.pre = 1; L& z = (x += y); RET(&z == &x); clamp_size(x, 300); END
    MOP(nm("-=")) L& x = c.target<L>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; L& z = (x -= e); RET(&z == &x); END
    MOP(nm("*=")) L& x = c.target<L>(w); const int t = gen_times(r, x.size()); c.pre = times_pre(x.size(), t); L& z = (x *= t); RET(&z == &x); clamp_size(x, 300); END
    MOP(nm("/=")) L& x = c.target<L>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; L& z = (x /= e); RET(&z == &x); END
    MOP(nm(">>= <<=")) L& x = c.target<L>(w); const int n = c.index(x.size()); c.pre = 1; L& z = r.chance(1, 2) ? (x >>= n) : (x <<= n); RET(&z == &x); END
    MOP(nm("reverse")) L& x = c.target<L>(w); c.pre = 1; L& z = x.reverse(); RET(&z == &x); END
    MOP(nm("uniquify")) L& x = c.target<L>(w); c.pre = 1; L& z = x.uniquify(); RET(&z == &x); END
    MOP(nm("sort")) L& x = c.target<L>(w); c.pre = 1; L& z = r.chance(1, 2) ? x.sort() : x.sort([](const T& a, const T& b) { return b < a; }); RET(&z == &x); END
    MOP(nm("erase")) L& x = c.target<L>(w); const int a = c.index(x.size()); const int b = c.index(x.size()); c.pre = range_pre(x.size(), a, b); L& z = x.erase(a, b); RET(&z == &x); END
    MOP(nm("map")) L& x = c.target<L>(w); const T e = c.arg<T>(w, &x); c.pre = 1; int n = 0; L& z = x.map([&](T& v) { if (++n % 3 == 0) v = e; }); RET(&z == &x); RET(n); END
    MOP(nm("filter")) L& x = c.target<L>(w); c.pre = 1; int n = 0; L& z = x.filter([&](const T& v) { ++n; return even(v); }); RET(&z == &x); RET(n); END
    MOP(nm("extend own range")) L& x = c.target<L>(w); const int n = x.size(); const int a = int(r.range(0, n)); const int b = int(r.range(a, n)); c.pre = 1;
        if (c.copy_args) { const L& y = c.hold(L(x)); x.extend(y.begin() + a, y.begin() + b); } else x.extend(x.begin() + a, x.begin() + b); clamp_size(x, 300); END
    MOP(nm("extend")) L& x = c.target<L>(w); const L& y = c.arg<L>(w); c.pre = 1; x.extend(y.begin(), y.end()); clamp_size(x, 300); END
    MOP(nm("clear")) L& x = c.target<L>(w); c.pre = 1; if (r.chance(1, 3)) x.clear(); END
    COP(nm("construct")) const auto v = gen_vec<T>(r); c.pre = 1; L a(v), b(v.begin(), v.end()); RET(a == b); L d{Gen<T>::make(r)}; c.out(d); END
}
template <typename T>
void deque_ops(const std::string& tn)
{
    using Q = Deque<T>;
    auto nm = [&](const char* op) { return intern(tn + " " + op); };
    COP(nm("[]")) const Q& x = c.target<Q>(w); const int i = c.index(x.size()); c.pre = i >= -x.size() && i < x.size(); RET(x[i]); END
    COP(nm("front back")) const Q& x = c.target<Q>(w); c.pre = x.size() > 0; RET(x.front()); RET(x.back()); END
    MOP(nm("front back =")) Q& x = c.target<Q>(w); const T& e = c.arg<T>(w, &x); c.pre = x.size() > 0; if (r.chance(1, 2)) x.front() = e; else x.back() = e; END
    MOP(nm("[] =")) Q& x = c.target<Q>(w); const int i = c.index(x.size()); const T& e = c.arg<T>(w, &x); c.pre = i >= -x.size() && i < x.size(); x[i] = e; END
    MOP(nm("push_back")) Q& x = c.target<Q>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; x.push_back(e); clamp_size(x, 300); END
    MOP(nm("push_front")) Q& x = c.target<Q>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; x.push_front(e); clamp_size(x, 300); END
    MOP(nm("pop_back")) Q& x = c.target<Q>(w); c.pre = x.size() > 0; RET(x.pop_back()); END
    MOP(nm("pop_front")) Q& x = c.target<Q>(w); c.pre = x.size() > 0; RET(x.pop_front()); END
    MOP(nm("extend_back own")) Q& x = c.target<Q>(w); c.pre = 1; const Q& y = c.copy_args ? c.hold(Q(x)) : x; if (r.chance(1, 2)) x.extend_back(y.begin(), y.end()); else x.extend_back(y.rbegin(), y.rend()); clamp_size(x, 300); END
    MOP(nm("extend_front own")) Q& x = c.target<Q>(w); c.pre = 1; const Q& y = c.copy_args ? c.hold(Q(x)) : x; if (r.chance(1, 2)) x.extend_front(y.begin(), y.end()); else x.extend_front(y.rbegin(), y.rend()); clamp_size(x, 300); END
    MOP(nm("extend")) Q& x = c.target<Q>(w); const Q& y = c.other<Q>(w); c.pre = 1; if (r.chance(1, 2)) x.extend_front(y.begin(), y.end()); else x.extend_back(y.begin(), y.end()); clamp_size(x, 300); END
    MOP(nm(">>= <<=")) Q& x = c.target<Q>(w); const int n = c.index(x.size()); c.pre = 1; Q& z = r.chance(1, 2) ? (x >>= n) : (x <<= n); RET(&z == &x); END
    MOP(nm("reverse")) Q& x = c.target<Q>(w); c.pre = 1; Q& z = x.reverse(); RET(&z == &x); END
    MOP(nm("clear")) Q& x = c.target<Q>(w); c.pre = 1; if (r.chance(1, 3)) x.clear(); END
}
template <typename T>
void set_ops(const std::string& tn)
{
    using S = Set<T>;
    auto nm = [&](const char* op) { return intern(tn + " " + op); };
    COP(nm("find")) const S& x = c.target<S>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; RET(x.find(e) == x.end()); RET(x.contains(e)); END
    COP(nm("min max")) const S& x = c.target<S>(w); c.pre = x.size() > 0; RET(x.min()); RET(x.max()); END
    COP(nm("algebra")) const S& x = c.target<S>(w); const S& y = c.other<S>(w); c.pre = 1; RET(x & y); RET(x | y); RET(x - y); RET(x ^ y); END
    COP(nm("inclusion")) const S& x = c.target<S>(w); const S& y = c.other<S>(w); c.pre = 1; RET(x < y); RET(x <= y); RET(x > y); RET(x >= y); END
    MOP(nm("add")) S& x = c.target<S>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; RET(x.add(e)); clamp_size(x, 300); END
    MOP(nm("remove")) S& x = c.target<S>(w); const T& e = c.arg<T>(w, &x); c.pre = 1; RET(x.remove(e)); END
    MOP(nm("pop")) S& x = c.target<S>(w); c.pre = x.size() > 0; RET(x.pop()); END
    MOP(nm("op=")) S& x = c.target<S>(w); const S& y = c.other<S>(w); c.pre = 1; S* z = nullptr;
        switch (r.range(0, 3)) { case 0: z = &(x &= y); break; case 1: z = &(x |= y); break; case 2: z = &(x -= y); break; default: z = &(x ^= y); } RET(z == &x); clamp_size(x, 300); END
    MOP(nm("extend")) S& x = c.target<S>(w); const S& y = c.other<S>(w); c.pre = 1; x.extend(y.begin(), y.end()); clamp_size(x, 300); END
    MOP(nm("clear")) S& x = c.target<S>(w); c.pre = 1; if (r.chance(1, 3)) x.clear(); END
}
template <typename K, typename V>
void dict_ops(const std::string& tn)
{
    using D = Dict<K, V>;
    auto nm = [&](const char* op) { return intern(tn + " " + op); };
    COP(nm("[]")) const D& x = c.target<D>(w); const K& k = c.arg<K>(w, &x); c.pre = -1; bool has = false; for (const auto& p : x) has |= p.first == k; c.pre = has; RET(x[k]); END
    COP(nm("get find")) const D& x = c.target<D>(w); const K& k = c.arg<K>(w, &x); const V& v = c.arg<V>(w, &x); c.pre = 1; RET(x.get(k, v)); RET(x.contains(k)); RET(x.find(k) == x.end()); END
    COP(nm("min max")) const D& x = c.target<D>(w); c.pre = x.size() > 0; RET(x.min()); RET(x.max()); END
    COP(nm("views")) const D& x = c.target<D>(w); c.pre = 1; RET(x.keys()); RET(x.values()); RET(x.items().size()); END
    MOP(nm("[] =")) D& x = c.target<D>(w); const K& k = c.arg<K>(w, &x); const V& v = c.arg<V>(w, &x); bool has = false; for (const auto& p : x) has |= p.first == k; c.pre = has; x[k] = v; END
    MOP(nm("add")) D& x = c.target<D>(w); const K& k = c.arg<K>(w, &x); const V& v = c.arg<V>(w, &x); c.pre = 1; RET(x.add(k, v)); clamp_size(x, 300); END
    MOP(nm("remove")) D& x = c.target<D>(w); const K& k = c.arg<K>(w, &x); c.pre = 1; RET(x.remove(k)); END
    MOP(nm("pop")) D& x = c.target<D>(w); c.pre = x.size() > 0; RET(x.pop()); END
    MOP(nm("extend")) D& x = c.target<D>(w); const D& y = c.other<D>(w); c.pre = 1; x.extend(y.begin(), y.end()); clamp_size(x, 300); END
    MOP(nm("clear")) D& x = c.target<D>(w); c.pre = 1; if (r.chance(1, 3)) x.clear(); END
}
inline void tuple_ops()
{
    COP("Tuple get rest") const Mixed& x = c.target<Mixed>(w); c.pre = 1; RET(x.get<0>()); RET(x.get<1>()); RET(x.get<2>()); RET(x.rest()); RET(x.rest().rest()); RET(x.size()); END
    COP("Tuple make") const Int& a = c.arg<Int>(w); const Str& b = c.arg<Str>(w); const List<int>& l = c.arg<List<int>>(w); c.pre = 1; const auto t = pyincpp::make_tuple(a, b, l); c.out(t); RET(t == c.other<Mixed>(w)); RET(t != c.other<Pt>(w)); END
}
// the table is filled in several translation units, to be compiled in parallel
void table_numbers();
void table_lists();
void table_others();
inline void build_table()
{
    if (!const_ops().empty())
        return;
    table_numbers();
    table_lists();
    table_others();
}
inline int op_count()
{
    build_table();
    return int(const_ops().size() + mut_ops().size());
}
inline const char* op_name(int k)
{
    return k < int(const_ops().size()) ? const_ops()[k].name : mut_ops()[k - const_ops().size()].name;
}
inline bool op_is_const(int k)
{
    return k < int(const_ops().size());
}
// run operation k; what it returned, or its rejection, goes to c.o
inline mon::Out run_op(int k, World& w, Ctx& c)
{
    c.opname = op_name(k);
    c.o << c.opname << ": ";
    const mon::Out r = mon::attempt(
        [&]
        {
            if (op_is_const(k))
                const_ops()[k].fn(w, c);
            else
                mut_ops()[k - const_ops().size()].fn(w, c);
        });
    if (r != mon::Out::ok)
        c.o << "rejected " << mon::name(r) << " " << mon::last_what;
    c.o << "\n";
    return r;
}
} // namespace ops
