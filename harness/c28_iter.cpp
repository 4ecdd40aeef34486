// C28: iteration of List, Deque, Set, Dict and Str.
#include "deque.hpp"
#include "dict.hpp"
#include "elems.hpp"
#include "set.hpp"
#include "strx.hpp"
#include <iterator>
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::List;
using pyincpp::Pair;
using pyincpp::Set;
namespace
{
using Keys = std::vector<int>;
template <typename C, typename F>
void walk(const C& c, const Keys& want, const std::string& name, F key)
{
    auto ctx = [&] { return name + " of " + show_keys(want); };
    NOTE(ctx());
    OP("iterate forwards");
    Keys got;
    for (auto it = c.begin(); it != c.end(); ++it)
    {
        got.push_back(key(*it));
        EXPECT(got.size() <= want.size(), "iter-forward:" + name, ctx() << ": more than size() elements");
    }
    EXPECT(got == want && c.size() == int(want.size()), "iter-forward:" + name, ctx() << " visits " << show_keys(got) << ", size() " << c.size());
    got.clear();
    for (auto it = c.begin(); it != c.end();)
        got.push_back(key(*it++));
    EXPECT(got == want, "iter-postfix:" + name, ctx() << " visits " << show_keys(got));
    OP("iterate backwards");
    Keys back(want.rbegin(), want.rend());
    got.clear();
    for (auto it = c.rbegin(); it != c.rend(); ++it)
    {
        got.push_back(key(*it));
        EXPECT(got.size() <= want.size(), "iter-backward:" + name, ctx() << ": more than size() elements");
    }
    EXPECT(got == back, "iter-backward:" + name, ctx() << " visits " << show_keys(got));
    got.clear();
    for (auto it = c.end(); it != c.begin();)
        got.push_back(key(*--it));
    EXPECT(got == back, "iter-decrement:" + name, ctx() << " visits " << show_keys(got));
    OP("range for");
    got.clear();
    for (const auto& e : c)
        got.push_back(key(e));
    EXPECT(got == want, "iter-range-for:" + name, ctx() << " visits " << show_keys(got));
    OP("algorithms");
    EXPECT(std::distance(c.begin(), c.end()) == (std::ptrdiff_t)want.size() && std::distance(c.rbegin(), c.rend()) == (std::ptrdiff_t)want.size(), "iter-distance:" + name, ctx());
    EXPECT((c.begin() == c.end()) == want.empty() && (c.rbegin() == c.rend()) == want.empty(), "iter-empty:" + name, ctx());
    EXPECT(std::accumulate(c.begin(), c.end(), 0L, [&](long a, const auto& e) { return a + key(e); }) == std::accumulate(want.begin(), want.end(), 0L), "iter-accumulate:" + name, ctx());
    EXPECT(std::equal(c.begin(), c.end(), want.begin(), want.end(), [&](const auto& e, int k) { return key(e) == k; }), "iter-equal:" + name, ctx());
    for (std::size_t i = 0; i < want.size(); i += 1 + want.size() / 4)
        EXPECT(key(*std::next(c.begin(), i)) == want[i] && key(*std::prev(c.end(), want.size() - i)) == want[i] && key(*std::next(c.rbegin(), want.size() - 1 - i)) == want[i], "iter-next:" + name, ctx() << " at " << i);
    if (want.size() > 1) // two iterators are independent
    {
        auto a = c.begin(), b = c.begin();
        ++b;
        EXPECT(key(*a) == want[0] && key(*b) == want[1] && a != b && ++a == b, "iter-independent:" + name, ctx());
    }
    mon::evaluated(10);
    if (want.size() > 1)
        mon::nontrivial(hash_vec(want, mon::hash_str(name)));
    SAMPLE(name.c_str(), show_keys(want));
}
template <typename T>
void sequences(Rng& r, int maxn, int keys)
{
    Keys k(r.chance(1, 10) ? 0 : r.range(0, maxn));
    std::vector<T> v;
    for (int& x : k)
    {
        x = r.range(-keys, keys);
        v.push_back(As<T>::make(x));
    }
    const std::string t = As<T>::name;
    auto key = [](const T& e) { return As<T>::key(e); };
    List<T> l(v);
    Deque<T> d;
    const int pre = r.range(0, 200); // somewhere inside its blocks
    for (int i = 0; i < pre; ++i)
        r.chance(1, 2) ? d.push_back(As<T>::make(0)) : d.push_front(As<T>::make(0));
    d.extend_back(v.begin(), v.end());
    for (int i = 0; i < pre; ++i)
        d.pop_front();
    walk(l, k, "List<" + t + ">", key);
    walk(d, k, "Deque<" + t + ">", key);
    // edits in between
    if (!k.empty())
    {
        const int i = r.range(0, k.size() - 1);
        l.remove(i);
        k.erase(k.begin() + i);
        l += v[0];
        k.push_back(As<T>::key(v[0]));
        walk(l, k, "List<" + t + ">", key);
        // find gives the first match
        const int x = k[r.range(0, k.size() - 1)];
        OP("find");
        auto it = l.find(As<T>::make(x));
        EXPECT(it != l.end() && it - l.begin() == std::find(k.begin(), k.end(), x) - k.begin(), "iter-find:List<" + t + ">", show_keys(k) << " find(" << x << ")");
        EXPECT(List<T>(it, l.end()).size() == int(k.end() - std::find(k.begin(), k.end(), x)), "iter-find:List<" + t + ">", show_keys(k));
    }
    EXPECT(l.find(As<T>::make(keys + 5)) == l.end(), "iter-find:List<" + t + ">", show_keys(k));
    const auto finds = [&](const List<T>& x, const Keys& kk) // every key in range, present or not
    {
        for (int i = 0; i < 12; ++i)
        {
            const int want = int(r.range(-keys - 1, keys + 1));
            const auto at = std::find(kk.begin(), kk.end(), want);
            const auto it = x.find(As<T>::make(want));
            EXPECT(at == kk.end() ? it == x.end() : it - x.begin() == at - kk.begin() && key(*it) == want, "iter-find:List<" + t + ">", show_keys(kk) << " find(" << want << ")");
        }
    };
    finds(l, k);
    {
        Keys up = k;
        std::sort(up.begin(), up.end(), key_less<T>);
        List<T> sorted;
        for (int x : up)
            sorted += As<T>::make(x);
        finds(sorted, up);
        sorted.reverse();
        std::reverse(up.begin(), up.end());
        finds(sorted, up);
    }
    // ranges rebuild the content, in every direction and between the types
    OP("range constructors");
    Keys back(k.rbegin(), k.rend());
    walk(List<T>(l.begin(), l.end()), k, "List<" + t + ">", key);
    walk(List<T>(l.rbegin(), l.rend()), back, "List<" + t + ">", key);
    walk(Deque<T>(l.begin(), l.end()), k, "Deque<" + t + ">", key);
    walk(Deque<T>(l.rbegin(), l.rend()), back, "Deque<" + t + ">", key);
    Deque<T> e;
    e.extend_back(l.begin(), l.end());
    e.extend_front(l.rbegin(), l.rend());
    Keys both = back;
    both.insert(both.end(), k.begin(), k.end());
    walk(e, both, "Deque<" + t + ">", key);
    List<T> g;
    g.extend(e.rbegin(), e.rend());
    walk(g, Keys(both.rbegin(), both.rend()), "List<" + t + ">", key);
}
template <typename T>
void ordered(Rng& r, int maxn, int keys)
{
    Keys k(r.chance(1, 10) ? 0 : r.range(0, maxn));
    std::vector<T> v;
    for (int& x : k)
    {
        x = r.range(-keys, keys);
        v.push_back(As<T>::make(x));
    }
    std::sort(k.begin(), k.end(), key_less<T>);
    k.erase(std::unique(k.begin(), k.end()), k.end());
    const std::string t = As<T>::name;
    auto key = [](const T& e) { return As<T>::key(e); };
    auto pkey = [](const auto& p) { return As<T>::key(p.first) * 2 + (p.second == As<T>::key(p.first) + 1); };
    Set<T> s(v.begin(), v.end());
    Dict<T, int> d;
    for (auto& e : v)
        d.add(e, As<T>::key(e) + 1);
    Keys pk;
    for (int x : k)
        pk.push_back(x * 2 + 1);
    walk(s, k, "Set<" + t + ">", key);
    walk(d, pk, "Dict<" + t + ", int>", pkey);
    for (auto it = s.begin(); it != s.end() && std::next(it) != s.end(); ++it)
        EXPECT(*it < *std::next(it), "iter-ascending:Set<" + t + ">", show_keys(k));
    if (!k.empty())
    {
        const int i = r.range(0, k.size() - 1);
        OP("find");
        auto it = s.find(As<T>::make(k[i]));
        EXPECT(it != s.end() && std::distance(s.begin(), it) == i && key(*it) == k[i], "iter-find:Set<" + t + ">", show_keys(k) << " find(" << k[i] << ")");
        auto dt = d.find(As<T>::make(k[i]));
        EXPECT(dt != d.end() && std::distance(d.begin(), dt) == i && pkey(*dt) == pk[i], "iter-find:Dict<" + t + ", int>", show_keys(k) << " find(" << k[i] << ")");
        // what an iterator refers to survives other changes of a node-based container
        walk(Set<T>(it, s.end()), Keys(k.begin() + i, k.end()), "Set<" + t + ">", key);
        walk(Dict<T, int>(dt, d.end()), Keys(pk.begin() + i, pk.end()), "Dict<" + t + ", int>", pkey);
        s.remove(As<T>::make(k[i]));
        d.remove(As<T>::make(k[i]));
        k.erase(k.begin() + i);
        pk.erase(pk.begin() + i);
    }
    for (int i = 0; i < 20; ++i) // any key, present or not
    {
        const int x = int(r.range(-keys - 1, keys + 1));
        const auto at = std::find(k.begin(), k.end(), x);
        const auto it = s.find(As<T>::make(x));
        const auto dt = d.find(As<T>::make(x));
        const long long pos = at - k.begin();
        EXPECT(at == k.end() ? it == s.end() : std::distance(s.begin(), it) == pos && key(*it) == x, "iter-find:Set<" + t + ">", show_keys(k) << " find(" << x << ")");
        EXPECT(at == k.end() ? dt == d.end() : std::distance(d.begin(), dt) == pos && pkey(*dt) == pk[pos], "iter-find:Dict<" + t + ", int>", show_keys(k) << " find(" << x << ")");
    }
    EXPECT(s.find(As<T>::make(keys + 5)) == s.end() && d.find(As<T>::make(keys + 5)) == d.end(), "iter-find-missing:" + t, show_keys(k));
    walk(s, k, "Set<" + t + ">", key);
    walk(d, pk, "Dict<" + t + ", int>", pkey);
    OP("range constructors");
    walk(Set<T>(s.rbegin(), s.rend()), k, "Set<" + t + ">", key);
    walk(Dict<T, int>(d.rbegin(), d.rend()), pk, "Dict<" + t + ", int>", pkey);
    Set<T> s2;
    s2.extend(s.begin(), s.end());
    walk(s2, k, "Set<" + t + ">", key);
    Dict<T, int> d2;
    d2.extend(d.begin(), d.end());
    walk(d2, pk, "Dict<" + t + ", int>", pkey);
    walk(List<T>(s.begin(), s.end()), k, "List<" + t + ">", key);
    walk(d.keys(), k, "Set<" + t + ">", key);
}
} // namespace
SUITE(int_sequences, 1500, 40000) { sequences<int>(rng, 60, 50); }
SUITE(str_sequences, 500, 15000) { sequences<Str>(rng, 40, 50); }
SUITE(stdstring_sequences, 400, 10000) { sequences<std::string>(rng, 40, 50); }
SUITE(nested_sequences, 400, 10000) { sequences<List<int>>(rng, 40, 50); }
SUITE(elem_sequences, 400, 10000) { sequences<ElemN>(rng, 40, 50); }
SUITE(int_ordered, 1500, 40000) { ordered<int>(rng, 60, 50); }
SUITE(str_ordered, 500, 15000) { ordered<Str>(rng, 40, 50); }
SUITE(bigint_ordered, 400, 10000) { ordered<pyincpp::Int>(rng, 40, 50); }
SUITE(fraction_ordered, 400, 10000) { ordered<pyincpp::Fraction>(rng, 40, 50); }
SUITE(elem_ordered, 400, 10000) { ordered<ElemN>(rng, 40, 50); }
SUITE(long_sequences, 40, 800) { sequences<int>(rng, 4000, 1000); }
SUITE(very_long_sequences, 6, 80) { sequences<int>(rng, 90000, 30000); }
SUITE(very_long_ordered, 6, 80) { ordered<int>(rng, 90000, 1 << 28); }
SUITE(long_ordered, 40, 800) { ordered<int>(rng, 3000, 5000); }
SUITE(strings, 4000, 100000)
{
    std::string t = gen_bytes(rng, rng.chance(1, 20) ? 3000 : rng.chance(1, 8) ? 600 : 30);
    if (!t.empty() && rng.chance(1, 4)) // any byte at the ends
        t.back() = rng.chance(1, 2) ? char(rng.range(0, 255)) : "\n\r\t \0"[rng.range(0, 4)];
    if (!t.empty() && rng.chance(1, 4))
        t.front() = rng.chance(1, 2) ? char(rng.range(0, 255)) : "\n\r\t \0"[rng.range(0, 4)];
    const Str s(t);
    Keys k;
    for (char c : t)
        k.push_back(c);
    walk(s, k, "Str", [](const char& c) { return int(c); });
    walk(List<char>(s.begin(), s.end()), k, "List<char>", [](const char& c) { return int(c); });
    walk(Deque<char>(s.rbegin(), s.rend()), Keys(k.rbegin(), k.rend()), "Deque<char>", [](const char& c) { return int(c); });
}
// every size up to 1500 (6000 in thorough)
SUITE(every_size, 300, 1200)
{
    for (int n = 5 * int(idx); n < 5 * int(idx) + 5; ++n)
    {
        Keys k(n);
        std::vector<std::pair<int, int>> p;
        std::string t;
        for (int i = 0; i < n; ++i)
        {
            k[i] = int(rng.range(-40, 40)) + 1000 * i; // ascending
            p.emplace_back(k[i], i);
            t += char(rng.range(0, 255));
        }
        const auto self = [](const int& x) { return x; };
        walk(List<int>(k), k, "List<int>", self);
        walk(Deque<int>(k.begin(), k.end()), k, "Deque<int>", self);
        Deque<int> d;
        const int turns = int(rng.range(0, 150));
        for (int i = 0; i < turns; ++i)
            d.push_back(0);
        for (int i = 0; i < n; ++i)
        {
            if (i < turns)
                d.pop_front();
            d.push_back(k[i]);
        }
        while (d.size() > n)
            d.pop_front();
        walk(d, k, "Deque<int>", self);
        walk(Set<int>(k.rbegin(), k.rend()), k, "Set<int>", self);
        Keys values(n);
        std::iota(values.begin(), values.end(), 0);
        walk(Dict<int, int>(p.rbegin(), p.rend()), values, "Dict<int, int>", [](const auto& e) { return e.second; });
        walk(Str(t), Keys(t.begin(), t.end()), "Str", [](const char& c) { return int(c); });
    }
}
