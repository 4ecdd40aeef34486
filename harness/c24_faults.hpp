// shared by the c24 sources
#pragma once
// C24: failing element operations and failing allocations. Every operation is repeated with the 1st, 2nd, 3rd... element
// operation (copy, assignment, comparison, default construction, throwing move, callback) or allocation failing, until it
// runs through; after each failure everything involved is examined and then destroyed, and all live counts must balance.
#include "elems.hpp"
#include "intx.hpp"
#include "dump.hpp"
using namespace pyincpp;

inline namespace c24
{
enum Want
{
    basic, // valid afterwards
    strong // unchanged afterwards
};
// ---- what can be seen of a value without any operation that may fail ---------------------------------------
template <typename T>
std::string peek(const T& v)
{
    if constexpr (requires { v.canary; })
    {
        v.alive("examined");
        return v.key == T::MOVED ? "moved" : v.heap && *v.heap == v.key ? std::to_string(v.key) : "broken";
    }
    else if constexpr (requires { v.first; v.second; })
        return peek(v.first) + ":" + peek(v.second);
    else if constexpr (requires { v.begin(); v.rbegin(); v.is_empty(); })
    {
        std::string s = "[";
        int n = 0;
        for (const auto& x : v)
        {
            if (n)
                s += " ";
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, char>)
                s += std::to_string(int(x));
            else
                s += peek(x);
            ++n;
        }
        int m = 0;
        for (auto it = v.rbegin(); it != v.rend(); ++it)
            ++m;
        if (n != v.size() || m != n || v.is_empty() != (n == 0))
            s += " INCONSISTENT size";
        return s + "]";
    }
    else if constexpr (requires { v.template get<0>(); v.size(); })
    {
        std::string s = "(" + peek(v.template get<0>());
        if constexpr (requires { v.template get<1>(); })
            s += " " + peek(v.template get<1>());
        return s + ")";
    }
    else
    {
        std::ostringstream o;
        ops::dump(o, v);
        return o.str();
    }
}
template <typename T>
bool well_formed(const T& v, const std::string& p)
{
    if (p.find("INCONSISTENT") != std::string::npos || p.find("broken") != std::string::npos)
        return false;
    if constexpr (std::is_same_v<T, Int>)
    {
        // the same integer from its text is equal to it: no leading zeros, no negative zero, no lost parts
        const std::string t = text(v);
        const Big b = big(t);
        const Int y = mk(b);
        return t == b.str() && v == y && y == v && v.is_zero() == (b == 0) && v.is_negative() == (b < 0) && v.is_positive() == (b > 0) && v.digits() == (b == 0 ? 0 : int(t.size()) - (b < 0)) &&
               text(v + mk(Big(1))) == Big(b + 1).str() && text(v * v) == Big(b * b).str() && v.is_odd() == bool((b < 0 ? Big(-b) : b) & 1);
    }
    // Set and Dict: still sorted
    if constexpr (requires { v.min(); v.keys(); })
    {
        for (auto it = v.begin(), jt = it; it != v.end(); jt = it++)
            if (it != v.begin() && !(jt->first < it->first))
                return false;
    }
    else if constexpr (requires { v.min(); v.contains(*v.begin()); })
    {
        for (auto it = v.begin(), jt = it; it != v.end(); jt = it++)
            if (it != v.begin() && !(*jt < *it))
                return false;
    }
    return true;
}

template <typename X>
struct Ref // a function seen through a pointer, so that inject is compiled once per type only
{
    const void* f;
    void (*call)(const void*, X&);
    template <typename F>
    Ref(const F& g)
        : f(&g)
        , call([](const void* p, X& x) { (*static_cast<const F*>(p))(x); })
    {
    }
};
// run f on a fresh copy of base with the n-th failure, for every n (in sparse mode for some: the first ones, ever fewer, and the last ones)
inline bool sparse = false;
template <typename X>
void inject(const char* op, const X& base, Want want, std::type_identity_t<Ref<X>> f, bool alloc, int max_n = 100000)
{
    mon::set_op(op);
    const std::string before = peek(base);
    std::string what;
    what.reserve(400);
    int fired_here = 0, last = 0, end = 0;
    for (int n = 1; n <= max_n; n += sparse ? 1 + n / 5 : n < 200 ? 1 : 1 + n / 40) // very long runs are sampled towards their end
    {
        if (end) // run through: now between the last that fired and the first that did not
        {
            if (end - last < 2)
                break;
            n = (last + end) / 2;
        }
        bool fired = false, threw = false;
        const long long live0 = es.live;
        long long mem0 = 0, mem1 = 0;
        std::string bad, after; // heap blocks of these are taken before counting
        after.reserve(before.size() * 6 + 4096);
        bad.reserve(4096);
        mem0 = mon::alloc_live;
        {
            X x(base);
            es.fired = false, mon::alloc_failed = false;
            if (alloc)
                mon::alloc_fail_at = n;
            else
                es.fail_at = n;
            try
            {
                f.call(f.f, x);
            }
            catch (const InjectedFailure&)
            {
                threw = true;
            }
            catch (const std::bad_alloc&)
            {
                threw = true;
            }
            mon::alloc_fail_at = 0;
            es.fail_at = 0;
            fired = alloc ? mon::alloc_failed : es.fired;
            if (threw)
            {
                after = peek(x);
                if (!well_formed(x, after))
                    bad = "is damaged";
                else if (want == strong && after != before)
                    bad = "is changed";
                else
                {
                    // copied, compared, assigned, printed: still an object like any other
                    X y(x);
                    if (peek(y) != after)
                        bad = "is copied as " + peek(y).substr(0, 300);
                    else if (!(y == x) && after.find("moved") == std::string::npos)
                        bad = "is not equal to its copy";
                    std::ostringstream o;
                    o << x;
                    x = base;
                    if (bad.empty() && peek(x) != before)
                        bad = "could not be assigned to afterwards: " + peek(x).substr(0, 300);
                }
            }
            else if (fired)
                bad = "swallowed";
        }
        if (bad == "swallowed" && alloc)
            bad.clear(); // a temporary buffer is allowed to do without memory
        mem1 = mon::alloc_live;
        auto at = [&]
        { return std::string(op) + " on " + before.substr(0, 300) + " with " + (alloc ? "allocation " : "element operation ") + std::to_string(n) + " failing"; };
        EXPECT(bad.empty(), std::string("fault:") + op, at() << ": the object " << bad << " (" << after.substr(0, 400) << ")");
        EXPECT(es.live == live0, std::string("fault-elements:") + op, at() << ": " << es.live - live0 << " elements are left alive");
        if (n > 1 || threw) // the first full run may fill a cache of the runtime
            EXPECT(mem1 == mem0 || bad.size() > 100, std::string("fault-memory:") + op, at() << ": " << mem1 - mem0 << " blocks are lost");
        check_canaries("fault", at());
        mon::evaluated();
        if (!fired)
        {
            if (!sparse || last == 0)
                break;
            end = n;
            continue;
        }
        last = n;
        ++fired_here;
        mon::nontrivial(mon::hash_mix(mon::hash_str(op, mon::hash_str(before)), std::uint64_t(n * 2 + alloc)));
    }
    mon::count_n(op, fired_here);
}

struct Sparse
{
    Sparse() { sparse = true; }
    ~Sparse() { sparse = false; }
};
// sizes of the containers
inline int few(Rng& r, int most)
{
    return sparse ? int(r.chance(1, 2) ? r.range(10, 80) : r.range(60, 520)) : int(r.range(0, most));
}
template <typename T>
std::vector<T> elems(Rng& r, int n, int span)
{
    std::vector<T> v;
    v.reserve(n);
    for (int i = 0; i < n; ++i)
        v.push_back(As<T>::make(int(r.range(-span, span))));
    return v;
}
struct Callback // may fail like an element operation
{
    template <typename T>
    bool operator()(const T& x) const
    {
        es.tick("callback");
        return As<T>::key(x) & 1;
    }
};
struct Action
{
    template <typename T>
    void operator()(T& x) const
    {
        es.tick("callback");
        x = As<T>::make(As<T>::key(x) + 1);
    }
};

}
