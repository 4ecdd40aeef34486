// C12: sort, uniquify, filter, map, reverse, rotate and repeat of List.
#include "elems.hpp"
#include <algorithm>
#include <set>
using pyincpp::List;
namespace
{
using KV = std::pair<int, int>; // key, id
using Model = std::vector<KV>;

// element = key and identity, for every type of element (identity is lost where the type has none)
template <typename T>
struct Id
{
    static constexpr bool has = false;
    static T make(int k, int) { return As<T>::make(k); }
    static KV get(const T& v) { return {As<T>::key(v), 0}; }
};
template <Move M>
struct Id<Elem<M>>
{
    static constexpr bool has = true;
    static Elem<M> make(int k, int i) { return Elem<M>(k, i); }
    static KV get(const Elem<M>& v) { return {As<Elem<M>>::key(v), v.id}; }
};
std::string show(const Model& m, bool ids = true)
{
    std::ostringstream o;
    o << "[";
    for (std::size_t i = 0; i < m.size() && i < 40; ++i)
    {
        o << (i ? ", " : "") << m[i].first;
        if (ids)
            o << "#" << m[i].second;
    }
    o << (m.size() > 40 ? ", ...]" : "]");
    return o.str();
}
template <typename T>
List<T> build(const Model& m)
{
    std::vector<T> v;
    for (auto& [k, i] : m)
        v.push_back(Id<T>::make(k, i));
    return List<T>(v);
}
template <typename T>
Model read(const List<T>& l)
{
    Model m;
    for (auto& e : l)
        m.push_back(Id<T>::get(e));
    return m;
}
template <typename T>
void same(const List<T>& l, Model want, const char* key, const std::string& ctx)
{
    if constexpr (!Id<T>::has)
        for (auto& p : want)
            p.second = 0;
    const Model got = read(l);
    EXPECT(got == want && l.size() == int(want.size()), std::string("list-transform:") + key, "List<" << As<T>::name << "> " << ctx << " gives " << show(got) << " want " << show(want));
    mon::evaluated();
}
Model gen(Rng& r, int maxn, int keys)
{
    Model m(r.chance(1, 8) ? r.range(0, 1) : r.range(0, maxn));
    const int shape = r.range(0, 6);
    int k = r.range(-keys, keys);
    for (std::size_t i = 0; i < m.size(); ++i)
    {
        switch (shape)
        {
            case 0: k = i; break;
            case 1: k = -int(i); break;
            case 2: k = r.chance(1, 10) ? r.range(-keys, keys) : k; break; // long runs
            case 3: k = i % 5; break;
            default: k = r.range(-keys, keys);
        }
        m[i] = {k, int(i)};
    }
    return m;
}
// comparators over keys, usable as plain function pointers of every element type
template <typename T>
struct Cmp
{
    using F = bool (*)(const T&, const T&);
    static bool desc(const T& a, const T& b) { return b < a; }
    static bool half(const T& a, const T& b) { return Id<T>::get(a).first / 2 < Id<T>::get(b).first / 2; }
    static bool abs_(const T& a, const T& b) { return std::abs(Id<T>::get(a).first) < std::abs(Id<T>::get(b).first); }
    static bool none(const T&, const T&) { return false; }
};
template <typename T>
void one(Rng& r, const Model& m)
{
    const int n = m.size();
    const std::string ctx0 = "of " + show(m);
    NOTE("List<" << As<T>::name << "> " << show(m));
    // sort
    {
        List<T> l = build<T>(m);
        Model want = m;
        OP("List sort");
        EXPECT(&l.sort() == &l, "list-return:sort", ctx0);
        // the order that puts each element by key, then by its place: the definition of a stable sort
        auto stable = [](const Model& v, auto less)
        {
            std::vector<std::pair<KV, std::size_t>> t;
            for (std::size_t i = 0; i < v.size(); ++i)
                t.push_back({v[i], i});
            std::sort(t.begin(), t.end(), [&](auto& x, auto& y) { return less(x.first.first, y.first.first) || (!less(y.first.first, x.first.first) && x.second < y.second); });
            Model out;
            for (auto& p : t)
                out.push_back(p.first);
            return out;
        };
        if constexpr (std::is_same_v<T, int> || Id<T>::has)
        {
            same(l, stable(m, [](int a, int b) { return a < b; }), "sort", "sort " + ctx0);
            typename Cmp<T>::F cs[] = {Cmp<T>::desc, Cmp<T>::half, Cmp<T>::abs_, Cmp<T>::none};
            const int c = r.range(0, 3);
            List<T> k = build<T>(m);
            OP("List sort comparator");
            k.sort(cs[c]);
            auto less = [&](int a, int b) { return c == 0 ? b < a : c == 1 ? a / 2 < b / 2 : c == 2 ? std::abs(a) < std::abs(b) : false; };
            same(k, stable(m, less), "sort-comparator", "sort by comparator " + std::to_string(c) + " " + ctx0);
        }
        else // order of the type itself: ascending and a permutation
        {
            for (int i = 0; i + 1 < n; ++i)
                EXPECT(!(l[i + 1] < l[i]), "list-transform:sort", "sort " << ctx0 << " is not ascending");
            Model a = read(l), b = m;
            for (auto& p : b)
                p.second = 0;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            EXPECT(a == b, "list-transform:sort", "sort " << ctx0 << " is not a permutation");
            mon::evaluated();
        }
    }
    // uniquify
    {
        List<T> l = build<T>(m);
        Model want;
        std::set<int> seen;
        for (auto& p : m)
            if (seen.insert(p.first).second)
                want.push_back(p);
        OP("List uniquify");
        EXPECT(&l.uniquify() == &l, "list-return:uniquify", ctx0);
        same(l, want, "uniquify", "uniquify " + ctx0);
    }
    // filter, with a predicate that has a state of its own to see how it is called
    {
        List<T> l = build<T>(m);
        const int mod = r.range(1, 4), rem = r.range(0, 3);
        auto pred = [=](int k) { return ((k % mod) + mod) % mod == rem % mod; };
        Model want, calls;
        for (auto& p : m)
            if (pred(p.first))
                want.push_back(p);
        OP("List filter");
        EXPECT(&l.filter([&](const T& e)
                         { calls.push_back(Id<T>::get(e)); return pred(calls.back().first); }) == &l,
               "list-return:filter", ctx0);
        same(l, want, "filter", "filter (k mod " + std::to_string(mod) + " == " + std::to_string(rem % mod) + ") " + ctx0);
        Model mm = m;
        if constexpr (!Id<T>::has)
            for (auto& p : mm)
                p.second = 0;
        EXPECT(calls == mm, "list-transform:filter-calls", "filter " << ctx0 << " called the predicate on " << show(calls));
    }
    // map
    {
        List<T> l = build<T>(m);
        Model want = m, calls;
        for (auto& p : want)
            p.first = p.first * 2 + 1;
        OP("List map");
        EXPECT(&l.map([&](T& e)
                      { calls.push_back(Id<T>::get(e)); e = Id<T>::make(calls.back().first * 2 + 1, calls.back().second); }) == &l,
               "list-return:map", ctx0);
        same(l, want, "map", "map k*2+1 " + ctx0);
        Model mm = m;
        if constexpr (!Id<T>::has)
            for (auto& p : mm)
                p.second = 0;
        EXPECT(calls == mm, "list-transform:map-calls", "map " << ctx0 << " called the action on " << show(calls));
    }
    // reverse
    {
        List<T> l = build<T>(m);
        OP("List reverse");
        EXPECT(&l.reverse() == &l, "list-return:reverse", ctx0);
        same(l, Model(m.rbegin(), m.rend()), "reverse", "reverse " + ctx0);
    }
    // rotate
    for (int t = 0; t < 3; ++t)
    {
        const int k = t == 0 ? r.range(-2 * n - 2, 2 * n + 2) : t == 1 ? r.range(INT_MIN, INT_MAX) : r.of<int>({INT_MIN, INT_MAX, INT_MIN + 1, 0, 1, -1, n, -n, n + 1, n - 1, -n - 1});
        for (int left = 0; left < 2; ++left)
        {
            List<T> l = build<T>(m);
            Model want(n);
            for (int i = 0; i < n; ++i)
            {
                const long long to = ((i + (left ? -1LL : 1LL) * k) % n + n) % n;
                want[to] = m[i];
            }
            OP("List rotate");
            EXPECT(&(left ? l <<= k : l >>= k) == &l, "list-return:rotate", ctx0);
            same(l, want, left ? "<<=" : ">>=", (left ? "<<= " : ">>= ") + std::to_string(k) + " " + ctx0);
        }
    }
    // repeat
    {
        const int times = r.of<int>({0, 1, 2, 3, 5, 7});
        Model want;
        for (int i = 0; i < times; ++i)
            want.insert(want.end(), m.begin(), m.end());
        List<T> l = build<T>(m);
        OP("List *");
        same(l * times, want, "*", "* " + std::to_string(times) + " " + ctx0);
        same(l, m, "* operand", "* " + std::to_string(times) + " " + ctx0);
        OP("List *=");
        EXPECT(&(l *= times) == &l, "list-return:*=", ctx0);
        same(l, want, "*=", "*= " + std::to_string(times) + " " + ctx0);
    }
    if (n > 1)
        mon::nontrivial([&] { std::uint64_t h = mon::hash_str(As<T>::name); for (auto& p : m) h = mon::hash_mix(h, p.first); return h; }());
    SAMPLE(As<T>::name, show(m));
}
// several transformations in a row on the same object
template <typename T>
void chain(Rng& r)
{
    Model m = gen(r, 40, r.of<int>({2, 5, 100}));
    List<T> l = build<T>(m);
    NOTE("chain on " << show(m));
    for (int s = 0; s < 20; ++s)
    {
        std::string w;
        const int n = m.size();
        switch (r.range(0, 6))
        {
            case 0:
                w = "sort";
                l.sort();
                std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.first < b.first; });
                break;
            case 1:
                if (!r.chance(1, 5))
                    continue;
                w = "uniquify";
                l.uniquify();
                for (std::size_t i = 0; i < m.size(); ++i)
                    for (std::size_t j = m.size(); j-- > i + 1;)
                        if (m[j].first == m[i].first)
                            m.erase(m.begin() + j);
                break;
            case 2:
            {
                const int c = r.range(-100, 5);
                w = "filter > " + std::to_string(c);
                l.filter([=](const T& e) { return Id<T>::get(e).first > c; });
                std::erase_if(m, [=](auto& p) { return p.first <= c; });
                break;
            }
            case 3:
                w = "reverse";
                l.reverse();
                std::reverse(m.begin(), m.end());
                break;
            case 4:
            {
                const int k = r.range(-100, 100);
                w = ">>= " + std::to_string(k);
                l >>= k;
                if (n)
                    std::rotate(m.begin(), m.begin() + (((-k) % n) + n) % n, m.end());
                break;
            }
            case 5:
                if (n > 60)
                    continue;
                w = "*= 2";
                l *= 2;
                {
                    const Model c = m;
                    m.insert(m.end(), c.begin(), c.end());
                }
                break;
            default:
                w = "append";
                for (int i = 0; i < 5; ++i)
                {
                    const KV p{int(r.range(-5, 5)), int(r.range(100, 999))};
                    l += Id<T>::make(p.first, p.second);
                    m.push_back(p);
                }
        }
        OP("List transformation chain");
        NOTE(w);
        same(l, m, "chain", "after " + w);
    }
}
template <typename T>
void run(Rng& r, int maxn)
{
    const auto live = es.live;
    one<T>(r, gen(r, maxn, r.of<int>({1, 3, 20, 1000})));
    if constexpr (std::is_same_v<T, int> || Id<T>::has)
        chain<T>(r);
    EXPECT(es.live == live, "list-elements-leaked", "live elements " << es.live - live << " after transformations of List<" << As<T>::name << ">");
    check_canaries("list", "transformations");
}
} // namespace
SUITE(int_transform, 4000, 150000) { run<int>(rng, 30); }
SUITE(str_transform, 1200, 40000) { run<pyincpp::Str>(rng, 20); }
SUITE(stdstring_transform, 1200, 40000) { run<std::string>(rng, 20); }
SUITE(bigint_transform, 800, 20000) { run<pyincpp::Int>(rng, 20); }
SUITE(fraction_transform, 800, 20000) { run<pyincpp::Fraction>(rng, 20); }
SUITE(nested_transform, 1200, 40000) { run<List<int>>(rng, 20); }
SUITE(elem_nothrow_transform, 1500, 50000) { run<ElemN>(rng, 30); }
SUITE(elem_copyonly_transform, 1500, 50000) { run<ElemC>(rng, 30); }
SUITE(elem_throwing_transform, 800, 30000) { run<ElemT>(rng, 30); }
SUITE(long_int_transform, 160, 3000) { run<int>(rng, 900); }
SUITE(long_elem_transform, 60, 1500) { run<ElemN>(rng, 400); }
// thousands of elements: past every buffer and block size an implementation may switch at
template <typename T>
void huge(Rng& r, int lo, int hi)
{
    Model m = gen(r, 1, 1);
    m.resize(r.range(lo, hi));
    const int keys = r.of<int>({3, 40, 1500, 1 << 20});
    const bool up = r.chance(1, 4);
    for (std::size_t i = 0; i < m.size(); ++i)
        m[i] = {up ? int(i % keys) : int(r.range(-keys, keys)), int(i)};
    one<T>(r, m);
}
SUITE(huge_int_transform, 24, 400) { huge<int>(rng, 1000, 9000); }
SUITE(huge_elem_transform, 10, 200) { huge<ElemN>(rng, 1000, 6000); }
SUITE(huge_str_transform, 4, 80) { huge<pyincpp::Str>(rng, 1000, 3000); }
SUITE(very_long_transform, 2, 40) { huge<int>(rng, 40000, 70000); }
// every sequence over {0,1,2} up to length 6 (7 in thorough)
SUITE(small_exhaustive, 81, 81)
{
    Model m;
    for (int i = 0, v = idx; i < 4; ++i, v /= 3)
        m.push_back({v % 3, i});
    const int extra = mon::thorough ? 27 : 9;
    if (idx < 13) // shorter ones
    {
        Model s;
        int v = idx;
        const int len = v == 0 ? 0 : v < 4 ? 1 : 2;
        v -= len == 0 ? 0 : len == 1 ? 1 : 4;
        for (int i = 0; i < len; ++i, v /= 3)
            s.push_back({v % 3, i});
        one<ElemN>(rng, s);
        one<int>(rng, s);
    }
    one<ElemC>(rng, m);
    for (int v = 0; v < extra; ++v)
    {
        Model s = m;
        for (int i = 0, w = v; i < (mon::thorough ? 3 : 2); ++i, w /= 3)
            s.push_back({w % 3, 4 + i});
        one<ElemN>(rng, s);
    }
}
// every size up to 2000 (5000 in thorough)
SUITE(every_size, 400, 1000)
{
    for (int n = 5 * int(idx) + 1; n <= 5 * int(idx) + 5; ++n)
    {
        using V = std::vector<int>;
        V m(n), w;
        const int keys = rng.of<int>({2, 30, 1 << 20});
        for (int& k : m)
            k = rng.range(-keys, keys);
        if (rng.chance(1, 4))
            std::sort(m.begin(), m.end());
        const List<int> base(m);
        auto is = [&](const List<int>& l, const V& want, const char* key, long long by)
        {
            EXPECT(l.size() == int(want.size()) && std::equal(l.begin(), l.end(), want.begin(), want.end()), std::string("list-transform:every-size-") + key, "size " << n << " by " << by << ": " << show_keys(V(l.begin(), l.end())) << " want " << show_keys(want) << " from " << show_keys(m));
            mon::evaluated();
        };
        OP("List every size");
        List<int> l = base;
        (w = m), std::sort(w.begin(), w.end());
        is(l.sort(), w, "sort", 0);
        is(l.sort(), w, "sort-again", 0);
        std::reverse(w.begin(), w.end());
        is(l.reverse(), w, "reverse", 0);
        l = base;
        is(l.sort([](const int& a, const int& b) { return b < a; }), w, "sort-comparator", 0);
        l = base;
        (w = m), std::reverse(w.begin(), w.end());
        is(l.reverse(), w, "reverse", 0);
        for (int by : {1, 2, n / 2, n - 1, n, n + 1, int(rng.range(0, n)), -1, -int(rng.range(0, n)), 1 - n})
        {
            const int left = ((by % n) + n) % n;
            w = m;
            std::rotate(w.begin(), w.begin() + left, w.end());
            l = base;
            is(l <<= by, w, "rotate-left", by);
            is(l >>= by, m, "rotate-back", by);
            l = base;
            l >>= -by;
            is(l, w, "rotate-right", -by);
        }
        std::set<int> seen;
        w.clear();
        for (int k : m)
            if (seen.insert(k).second)
                w.push_back(k);
        l = base;
        is(l.uniquify(), w, "uniquify", keys);
        w.clear();
        for (int k : m)
            if (k % 3)
                w.push_back(k);
        l = base;
        is(l.filter([](const int& k) { return k % 3 != 0; }), w, "filter", 3);
        w = m;
        for (int& k : w)
            k = k * 2 + 1;
        l = base;
        is(l.map([](int& k) { k = k * 2 + 1; }), w, "map", 2);
        const int times = rng.range(0, 4);
        w.clear();
        for (int i = 0; i < times; ++i)
            w.insert(w.end(), m.begin(), m.end());
        is(base * times, w, "repeat", times);
        l = base;
        is(l *= times, w, "repeat", times);
        mon::nontrivial(hash_vec(m));
    }
}
// short sequences repeated any number of times up to some hundreds, and rotated by every amount
template <typename T, typename Key>
static void every_amount(const std::vector<T>& m, int times, Key key)
{
    const List<T> base(m);
    auto is = [&](const List<T>& l, auto want, int size, const char* what, int by)
    {
        bool same = l.size() == size;
        for (int i = 0; same && i < size; ++i)
            same = key(*(l.begin() + i)) == key(m[want(i)]);
        EXPECT(same, std::string("list-transform:every-amount-") + what, m.size() << " elements by " << by << " gives " << l.size() << " elements");
        mon::evaluated();
    };
    const int n = int(m.size());
    OP("List repeat any number of times");
    const auto again = [&](int i) { return i % n; };
    is(base * times, again, n * times, "repeat", times);
    List<T> l(base);
    is(l *= times, again, n * times, "repeat", times);
    OP("List rotate by any amount");
    if (n)
        for (int by = -2 * n - 1; by <= 2 * n + 1; ++by)
        {
            const int left = ((by % n) + n) % n;
            const auto turned = [&](int i) { return (i + left) % n; };
            l = base;
            is(l <<= by, turned, n, "rotate", by);
            l = base;
            is(l >>= -by, turned, n, "rotate", by);
        }
    mon::nontrivial(mon::hash_mix(mon::hash_mix(std::uint64_t(n) << 20, std::uint64_t(times)), sizeof(T)));
}
SUITE(every_amount, 300, 3000)
{
    const int times = idx < 280 ? int(idx) : int(rng.range(280, 5000));
    for (int n : {0, 1, 2, 3, int(rng.range(4, 40)), int(rng.range(1, 12))})
    {
        std::vector<int> v;
        std::vector<pyincpp::Str> s;
        for (int i = 0; i < n; ++i)
        {
            v.push_back(int(rng.range(-9, 9)));
            s.push_back(std::string(rng.range(0, 30), char('a' + i % 26)));
        }
        every_amount(v, times, [](int k) { return k; });
        if (idx % 3 == 0)
            every_amount(s, times, [](const pyincpp::Str& k) { return std::string(k.begin(), k.end()); });
    }
}
// sequences of a particular shape: runs, waves, near orders, at every size up to 1200
static Model shaped(Rng& r, int n, int shape)
{
    Model m(n);
    const int period = r.of<int>({2, 3, 8, 31, 32, 33, 64, 100});
    int last = 0;
    for (int i = 0; i < n; ++i)
    {
        int& k = m[i].first;
        switch (shape)
        {
            case 0: k = i; break;                                                   // ascending
            case 1: k = -i; break;                                                  // descending
            case 2: k = -(i / 2); break;                                            // descending in equal pairs
            case 3: k = 7; break;                                                   // all equal
            case 4: k = i % period; break;                                          // saw
            case 5: k = i % period == 0 ? int(r.range(-9, 9)) : last; break;        // plateaus
            case 6: k = std::min(i, n - i); break;                                  // up and down
            case 7: k = std::max(i, n - i); break;                                  // down and up
            case 8: k = i < n / 2 ? i : i - n / 2; break;                           // two ascending runs
            case 9: k = i / period % 2 ? -(i % period) : i % period; break;         // runs in turn ascending and descending
            case 10: k = i == n - 1 ? -1 : i; break;                                // the last belongs to the front
            case 11: k = i == 0 ? n : i; break;                                     // the first belongs to the end
            case 12: k = r.chance(1, 20) ? int(r.range(0, n)) : i; break;           // nearly ascending
            case 13: k = i % 2 ? 1 : 0; break;                                      // two values in turn
            default: k = int(r.range(-n, n)); break;
        }
        last = k;
        m[i].second = i;
    }
    return m;
}
SUITE(shapes, 300, 3000)
{
    for (int n = 4 * int(idx % 300) + 1; n <= 4 * int(idx % 300) + 4; ++n)
        one<ElemN>(rng, shaped(rng, n, int((idx / 300 * 5 + idx + n) % 15)));
    one<int>(rng, shaped(rng, int(rng.range(1, 3000)), int(rng.range(0, 14))));
}
