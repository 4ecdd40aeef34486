// Element types for the containers: instrumented ones, and adapters that map an integer key to a value
// of the element type and back, so that one history can be run over many element types.
#pragma once
#include "fraction.hpp"
#include "int.hpp"
#include "list.hpp"
#include "mon.hpp"
#include "str.hpp"
#include <climits>
#include <compare>

struct InjectedFailure // the exception thrown by instrumented elements: of no standard type, so that nothing may swallow it
{
    const char* where;
};
struct ElemStats
{
    long long live = 0, ctors = 0, copies = 0, moves = 0, copy_assigns = 0, move_assigns = 0, compares = 0, prints = 0;
    long long fail_at = 0; // the n-th throwing operation from now fails; 0 = never
    bool fired = false;
    const char* fired_in = "";
    const char* bad = nullptr; // a canary was broken: a dead object was used or destroyed twice
    void reset_counts()
    {
        ctors = copies = moves = copy_assigns = move_assigns = compares = prints = 0;
    }
    void tick(const char* what)
    {
        if (fail_at > 0 && --fail_at == 0)
        {
            fired = true;
            fired_in = what;
            throw InjectedFailure{what};
        }
    }
};
inline ElemStats es;

enum class Move
{
    nothrow,
    none,    // copies instead
    throwing // may throw, counted as an injection point
};
// Compared by key only; id tells equal elements apart.
template <Move M>
struct Elem
{
    static constexpr unsigned ALIVE = 0xa11fe0e1u, DEAD = 0xdeadbeefu;
    static constexpr int MOVED = -999999;
    int key = 0, id = 0;
    unsigned canary = ALIVE;
    int* heap; // a block of its own, so that double destruction or leaks show up in the allocator too

    explicit Elem(int k, int i = 0)
        : key(k)
        , id(i)
    {
        heap = new int(k);
        ++es.live, ++es.ctors;
    }
    Elem()
    {
        es.tick("default constructor");
        heap = new int(0);
        ++es.live, ++es.ctors;
    }
    Elem(const Elem& o)
        : key((o.alive("copied from"), o.key))
        , id(o.id)
    {
        es.tick("copy constructor");
        heap = new int(key);
        ++es.live, ++es.copies;
    }
    Elem(Elem&& o) noexcept(M == Move::nothrow)
        requires(M != Move::none)
        : key((o.alive("moved from"), o.key))
        , id(o.id)
    {
        if constexpr (M == Move::throwing)
            es.tick("move constructor");
        heap = o.heap;
        o.heap = nullptr;
        o.key = MOVED;
        ++es.live, ++es.moves;
    }
    Elem& operator=(const Elem& o)
    {
        alive("assigned to"), o.alive("assigned from");
        es.tick("copy assignment");
        if (this != &o)
        {
            int* h = new int(o.key);
            delete heap;
            heap = h;
            key = o.key, id = o.id;
        }
        ++es.copy_assigns;
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept(M == Move::nothrow)
        requires(M != Move::none)
    {
        alive("assigned to"), o.alive("moved from");
        if constexpr (M == Move::throwing)
            es.tick("move assignment");
        if (this != &o)
        {
            delete heap;
            heap = o.heap;
            key = o.key, id = o.id;
            o.heap = nullptr;
            o.key = MOVED;
        }
        ++es.move_assigns;
        return *this;
    }
    ~Elem()
    {
        alive("destroyed");
        canary = DEAD;
        delete heap;
        --es.live;
    }
    void alive(const char* what) const
    {
        if (canary != ALIVE && !es.bad)
            es.bad = what;
    }
    bool operator==(const Elem& o) const
    {
        alive("compared"), o.alive("compared");
        es.tick("comparison");
        ++es.compares;
        return key == o.key;
    }
    std::weak_ordering operator<=>(const Elem& o) const
    {
        alive("compared"), o.alive("compared");
        es.tick("comparison");
        ++es.compares;
        return key <=> o.key;
    }
    friend std::ostream& operator<<(std::ostream& os, const Elem& e)
    {
        e.alive("printed");
        es.tick("printing");
        ++es.prints;
        return os << e.key;
    }
};
using ElemN = Elem<Move::nothrow>;
using ElemC = Elem<Move::none>;
using ElemT = Elem<Move::throwing>;

// ---- key <-> value -----------------------------------------------------------------------------
template <typename T>
struct As;
template <>
struct As<int>
{
    static constexpr const char* name = "int";
    static int make(int k) { return k; }
    static int key(int v) { return v; }
};
template <>
struct As<std::string>
{
    static constexpr const char* name = "std::string";
    static std::string make(int k) { return (k % 3 == 0 ? std::string(40, 'x') : "") + std::to_string(k); }
    static int key(const std::string& v)
    {
        const auto p = v.find_first_not_of('x');
        if (p == std::string::npos)
            return INT_MIN;
        const int k = atoi(v.c_str() + p);
        return v == make(k) ? k : INT_MIN;
    }
};
template <>
struct As<pyincpp::Str>
{
    static constexpr const char* name = "Str";
    static pyincpp::Str make(int k) { return As<std::string>::make(k); }
    static int key(const pyincpp::Str& v) { return As<std::string>::key(std::string(v.begin(), v.end())); }
};
template <>
struct As<pyincpp::Int>
{
    static constexpr const char* name = "Int";
    static pyincpp::Int make(int k) { return pyincpp::Int(k); }
    static int key(const pyincpp::Int& v)
    {
        std::ostringstream o;
        o << v;
        return o.str().size() > 10 ? INT_MIN : atoi(o.str().c_str());
    }
};
template <>
struct As<pyincpp::Fraction>
{
    static constexpr const char* name = "Fraction";
    static pyincpp::Fraction make(int k) { return pyincpp::Fraction(k, 7); }
    static int key(const pyincpp::Fraction& v) { return v.numerator() * (7 / v.denominator()); }
};
template <>
struct As<pyincpp::List<int>>
{
    static constexpr const char* name = "List<int>";
    static pyincpp::List<int> make(int k)
    {
        pyincpp::List<int> l{k};
        for (int i = 0; i < (k & 3); ++i)
            l += i;
        return l;
    }
    static int key(const pyincpp::List<int>& v)
    {
        if (v.size() == 0)
            return INT_MIN;
        const int k = *v.begin();
        return v.size() == 1 + (k & 3) ? k : INT_MIN;
    }
};
template <Move M>
struct As<Elem<M>>
{
    static constexpr const char* name = M == Move::nothrow ? "Elem(nothrow move)" : M == Move::none ? "Elem(copy only)" : "Elem(throwing move)";
    static Elem<M> make(int k) { return Elem<M>(k); }
    static int key(const Elem<M>& v)
    {
        v.alive("read");
        return v.heap && *v.heap == v.key ? v.key : INT_MIN;
    }
};

// the order of the values, told from the keys alone
template <typename T>
bool key_less(int a, int b)
{
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, pyincpp::Str>)
        return As<std::string>::make(a).compare(As<std::string>::make(b)) < 0;
    else
        return a < b;
}

template <typename C>
std::string show_keys(const C& c)
{
    std::ostringstream o;
    o << "[";
    int n = 0;
    for (const auto& x : c)
    {
        if (n)
            o << ", ";
        if (++n > 40)
        {
            o << "...";
            break;
        }
        o << x;
    }
    o << "]";
    return o.str();
}
inline void check_canaries(const char* key, const std::string& ctx)
{
    if (es.bad)
    {
        const char* b = es.bad;
        es.bad = nullptr;
        FAIL(std::string(key) + ":dead-element", ctx << ": a dead element was " << b);
    }
}
inline std::uint64_t hash_vec(const std::vector<int>& v, std::uint64_t h = 17)
{
    for (int x : v)
        h = mon::hash_mix(h, std::uint64_t(x));
    return mon::hash_mix(h, v.size());
}
