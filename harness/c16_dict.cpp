// C16: Dict against a mathematical map over random operation histories.
#include "ranges.hpp"
#include "dict.hpp"
#include "elems.hpp"
#include <list>
#include <map>
using pyincpp::Dict;
using pyincpp::Pair;
using pyincpp::Set;
namespace
{
using Model = std::vector<std::pair<int, int>>; // in ascending order of the keys' values
using Keys = std::vector<int>;
std::string show(const Model& m)
{
    std::ostringstream o;
    o << "{";
    for (std::size_t i = 0; i < m.size() && i < 40; ++i)
        o << (i ? ", " : "") << m[i].first << ": " << m[i].second;
    o << (m.size() > 40 ? ", ...}" : "}");
    return o.str();
}
template <typename K>
Model::iterator at(Model& m, int k)
{
    return std::find_if(m.begin(), m.end(), [&](auto& p) { return p.first == k; });
}
template <typename K>
bool put(Model& m, int k, int v) // keeps an old value
{
    if (at<K>(m, k) != m.end())
        return false;
    m.push_back({k, v});
    std::sort(m.begin(), m.end(), [](auto& a, auto& b) { return key_less<K>(a.first, b.first); });
    return true;
}
template <typename K, typename V>
void same(const Dict<K, V>& d, const Model& m, const char* key, const std::string& ctx)
{
    Model got;
    for (auto it = d.begin(); it != d.end(); ++it)
        got.push_back({As<K>::key(it->first), As<V>::key(it->second)});
    EXPECT(got == m && d.size() == int(m.size()) && d.is_empty() == m.empty(), std::string("dict-content:") + key,
           "Dict<" << As<K>::name << ", " << As<V>::name << "> " << ctx << ": holds " << show(got) << " (size " << d.size() << ") want " << show(m));
    mon::evaluated();
}
template <typename K, typename V>
Dict<K, V> build(Rng& r, const Model& m)
{
    std::vector<Pair<K, V>> v;
    std::vector<std::size_t> order(m.size());
    for (std::size_t i = 0; i < m.size(); ++i)
        order[i] = i;
    for (std::size_t i = order.size(); i > 1; --i)
        std::swap(order[i - 1], order[r.range(0, i - 1)]);
    for (auto i : order)
        v.push_back(Pair<K, V>(As<K>::make(m[i].first), As<V>::make(m[i].second)));
    if (!m.empty() && r.chance(1, 3)) // a second value for a key: the first one stays
        v.push_back(Pair<K, V>(As<K>::make(m[0].first), As<V>::make(m[0].second + 1)));
    switch (r.range(0, 4))
    {
        case 0: return Dict<K, V>(v.begin(), v.end());
        case 1: return Dict<K, V>(std::map<K, V>(v.begin(), v.end()));
        case 2:
        {
            Dict<K, V> d;
            for (auto& p : v)
                d.add(p.first, p.second);
            return d;
        }
        case 3:
            if (v.size() == 2)
                return Dict<K, V>{v[0], v[1]};
            [[fallthrough]];
        default:
        {
            Dict<K, V> d;
            d.extend(v.begin(), v.end());
            return d;
        }
    }
}
template <typename K, typename V>
void history(Rng& r, int maxn, int steps, int keys)
{
    Model m;
    for (int i = r.range(0, r.chance(1, 3) ? maxn : 4); i > 0; --i)
        put<K>(m, r.range(-keys, keys), r.range(-5, 5));
    Dict<K, V> d = build<K, V>(r, m);
    NOTE("Dict<" << As<K>::name << ", " << As<V>::name << "> " << show(m));
    same(d, m, "construct", "after construction");
    std::uint64_t h = 1;
    for (int st = 0; st < steps; ++st)
    {
        const int n = m.size();
        int k = r.range(-keys, keys), v = r.range(-5, 5);
        const bool own = n > 0 && r.chance(1, 4);
        const int pos = own ? int(r.range(0, n - 1)) : 0;
        if (own)
            k = m[pos].first;
        const K freshk = As<K>::make(k);
        const K& key = own ? std::next(d.begin(), pos)->first : freshk;
        const bool ownv = n > 0 && r.chance(1, 4);
        const int vpos = ownv ? int(r.range(0, n - 1)) : 0;
        if (ownv)
            v = m[vpos].second;
        const V freshv = As<V>::make(v);
        const V& val = ownv ? std::next(d.begin(), vpos)->second : freshv;
        auto mit = at<K>(m, k);
        const bool had = mit != m.end();
        const std::string ctx0 = " from " + show(m);
        std::ostringstream what;
        const char* name = "";
        const int op = r.range(0, 17);
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            {
                if (n >= maxn)
                    continue;
                name = "add";
                what << "add(" << k << ", " << v << ")";
                NOTE(what.str());
                OP("Dict add");
                const bool ret = d.add(key, val);
                EXPECT(ret == !had, "dict-return:add", what.str() << " returned " << ret << ctx0);
                put<K>(m, k, v);
                break;
            }
            case 3:
            case 4:
            case 5:
            {
                name = "[]";
                what << "[" << k << "] = " << v;
                NOTE(what.str());
                OP("Dict [] =");
                const auto o = mon::attempt([&] { d[key] = val; });
                EXPECT((o == mon::Out::ok) == had && (had || o == mon::Out::runtime_error), "dict-[]-key", what.str() << ": " << mon::name(o) << ctx0);
                if (had)
                    mit->second = v;
                break;
            }
            case 6:
            case 7:
            {
                name = "remove";
                what << "remove(" << k << ")" << (own ? " (own key)" : "");
                NOTE(what.str());
                OP("Dict remove");
                const bool ret = d.remove(key);
                EXPECT(ret == had, "dict-return:remove", what.str() << " returned " << ret << ctx0);
                if (had)
                    m.erase(mit);
                break;
            }
            case 8:
            {
                if (n == 0)
                    continue;
                name = "pop";
                what << "pop()";
                NOTE(what.str());
                OP("Dict pop");
                const auto p = d.pop();
                auto it = at<K>(m, As<K>::key(p.first));
                EXPECT(it != m.end() && it->second == As<V>::key(p.second), "dict-return:pop", "returned " << As<K>::key(p.first) << ": " << As<V>::key(p.second) << ctx0);
                m.erase(it);
                break;
            }
            case 9:
            {
                name = "extend";
                if (r.chance(1, 4))
                {
                    what << "extend(itself)";
                    NOTE(what.str());
                    OP("Dict extend");
                    d.extend(d.begin(), d.end());
                }
                else
                {
                    std::list<Pair<K, V>> a;
                    Model am;
                    for (int i = r.chance(1, 5) && n + 80 < maxn * 2 ? r.range(0, 80) : r.range(0, 5); i > 0; --i)
                    {
                        const int ak = r.range(-keys, keys), av = r.range(-5, 5);
                        am.push_back({ak, av});
                        a.push_back(Pair<K, V>(As<K>::make(ak), As<V>::make(av)));
                    }
                    what << "extend(" << show(am) << ")";
                    NOTE(what.str());
                    OP("Dict extend");
                    if (r.chance(1, 2))
                        d.extend(a.begin(), a.end());
                    else
                    {
                        const Dict<K, V> o(a.begin(), a.end());
                        d.extend(o.begin(), o.end());
                    }
                    for (auto& [ak, av] : am)
                        put<K>(m, ak, av);
                }
                break;
            }
            case 10:
                if (!r.chance(1, 8))
                    continue;
                name = "clear";
                what << "clear()";
                NOTE(what.str());
                OP("Dict clear");
                d.clear();
                m.clear();
                break;
            case 11:
                name = "copy/move";
                what << "copy or move";
                NOTE(what.str());
                OP("Dict copy/move");
                switch (r.range(0, 3))
                {
                    case 0:
                    {
                        Dict<K, V> c = d;
                        same(c, m, "copy", ctx0);
                        if (n)
                            c[As<K>::make(m[0].first)] = As<V>::make(m[0].second + 1);
                        same(d, m, "changed through a copy", ctx0);
                        if (n)
                            c[As<K>::make(m[0].first)] = As<V>::make(m[0].second);
                        d = c;
                        break;
                    }
                    case 1:
                    {
                        Dict<K, V> c = std::move(d);
                        same(c, m, "move", ctx0);
                        same(d, {}, "moved-from", ctx0);
                        d = std::move(c);
                        break;
                    }
                    case 2: d = *&d; break;
                    default:
                    {
                        Dict<K, V> c;
                        std::swap(d, c);
                        same(c, m, "swap", ctx0);
                        std::swap(d, c);
                    }
                }
                break;
            case 12:
            {
                name = "views";
                what << "keys, values, items";
                NOTE(what.str());
                OP("Dict views");
                const Set<K> ks = d.keys();
                const Set<V> vs = d.values();
                const Set<Pair<K, V>> is = d.items();
                Keys got, want;
                for (auto& x : ks)
                    got.push_back(As<K>::key(x));
                for (auto& p : m)
                    want.push_back(p.first);
                EXPECT(got == want, "dict-query:keys", "keys() = " << show_keys(got) << ctx0);
                got.clear(), want.clear();
                for (auto& x : vs)
                    got.push_back(As<V>::key(x));
                for (auto& p : m)
                    want.push_back(p.second);
                std::sort(want.begin(), want.end(), key_less<V>);
                want.erase(std::unique(want.begin(), want.end()), want.end());
                EXPECT(got == want, "dict-query:values", "values() = " << show_keys(got) << ctx0);
                Model gi;
                for (auto& p : is)
                    gi.push_back({As<K>::key(p.first), As<V>::key(p.second)});
                EXPECT(gi == m, "dict-query:items", "items() = " << show(gi) << ctx0);
                mon::evaluated(3);
                break;
            }
            case 13:
            {
                name = "==";
                what << "==";
                NOTE(what.str());
                OP("Dict ==");
                const Dict<K, V> o = build<K, V>(r, m);
                EXPECT(d == o && !(d != o), "dict-query:==", "is not equal to the same map" << ctx0);
                Model om = m;
                if (n > 0 && r.chance(1, 3)) // another key with the same value in its place
                {
                    const int i = int(r.range(0, n - 1)), v = om[i].second;
                    int k = om[i].first;
                    while (at<K>(om, k) != om.end())
                        k += r.chance(1, 2) ? 1 : -1;
                    om.erase(om.begin() + i);
                    put<K>(om, k, v);
                }
                else if (n > 1 && r.chance(1, 4)) // the values of two keys exchanged
                {
                    const int i = int(r.range(0, n - 1)), j = int(r.range(0, n - 1));
                    std::swap(om[i].second, om[j].second);
                }
                else if (n > 0 && r.chance(1, 2))
                    om[r.range(0, n - 1)].second += 1;
                else if (n > 0 && r.chance(1, 2))
                    om.erase(om.begin() + r.range(0, n - 1));
                else
                    put<K>(om, keys + 1, 0);
                const Dict<K, V> o2 = build<K, V>(r, om);
                EXPECT((d == o2) == (om == m) && (d != o2) == (om != m), "dict-query:==", (om == m ? "is not equal to " : "is equal to ") << show(om) << ctx0);
                EXPECT((o2 == d) == (om == m) && (o2 != d) == (om != m), "dict-query:==", show(om) << " and the other way round" << ctx0);
                mon::evaluated(2);
                break;
            }
            default:
            {
                name = "query";
                what << "queries about " << k;
                NOTE(what.str());
                OP("Dict queries");
                const Dict<K, V>& c = d;
                EXPECT(c.contains(key) == had, "dict-query:contains", "contains(" << k << ") = " << c.contains(key) << ctx0);
                auto it = c.find(key);
                EXPECT((it != c.end()) == had && (!had || (As<K>::key(it->first) == k && As<V>::key(it->second) == mit->second)), "dict-query:find", "find(" << k << ")" << ctx0);
                const V def = As<V>::make(77);
                const int got = As<V>::key(c.get(key, def));
                EXPECT(got == (had ? mit->second : 77), "dict-query:get", "get(" << k << ", 77) = " << got << ctx0);
                same(d, m, "get", what.str() + ctx0);
                for (int cc = 0; cc < 2; ++cc)
                {
                    int gv = INT_MIN;
                    const auto o = mon::attempt([&] { gv = As<V>::key(cc ? c[key] : d[key]); });
                    EXPECT((o == mon::Out::ok) == had && (had ? gv == mit->second : o == mon::Out::runtime_error), "dict-query:[]", "[" << k << "] = " << gv << " " << mon::name(o) << ctx0);
                    same(d, m, "[] read", what.str() + ctx0);
                }
                if (n > 0)
                {
                    EXPECT(As<K>::key(c.min()) == m.front().first, "dict-query:min", "min() = " << As<K>::key(c.min()) << ctx0);
                    EXPECT(As<K>::key(c.max()) == m.back().first, "dict-query:max", "max() = " << As<K>::key(c.max()) << ctx0);
                }
                mon::evaluated(6);
            }
        }
        for (auto& p : m)
            h = mon::hash_mix(h, p.first * 64 + p.second);
        h = mon::hash_mix(h, op);
        same(d, m, name, what.str() + ctx0);
        if (es.bad)
            check_canaries("dict", what.str() + ctx0);
        if (!m.empty())
            mon::nontrivial(mon::hash_mix(h, st));
    }
    SAMPLE((std::string(As<K>::name) + "," + As<V>::name).c_str(), steps << " operations end in " << show(m));
}
template <typename K, typename V>
void counted(Rng& r, int maxn, int steps, int keys)
{
    const auto live = es.live;
    history<K, V>(r, maxn, steps, keys);
    EXPECT(es.live == live, "dict-elements-leaked", "live elements " << es.live - live << " after the history of Dict<" << As<K>::name << ", " << As<V>::name << ">");
    check_canaries("dict", "end of history");
}
using pyincpp::Fraction;
using pyincpp::Int;
using pyincpp::List;
using pyincpp::Str;
} // namespace
SUITE(int_int_history, 2500, 80000) { history<int, int>(rng, 60, 50, rng.of<int>({2, 6, 40})); }
SUITE(str_int_history, 900, 30000) { history<Str, int>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(str_str_history, 700, 20000) { history<Str, Str>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(stdstring_history, 900, 30000) { history<std::string, std::string>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(bigint_list_history, 600, 20000) { history<Int, List<int>>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(fraction_int_history, 500, 20000) { history<Fraction, Int>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(elem_nothrow_history, 900, 30000) { counted<ElemN, ElemN>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(elem_copyonly_history, 900, 30000) { counted<ElemC, ElemC>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(int_elem_history, 500, 20000) { counted<int, ElemT>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(long_history, 60, 1000) { history<int, int>(rng, 1500, 100, 1500); }
SUITE(very_long, 4, 60) // beyond every 16-bit count
{
    std::map<int, int> m;
    Dict<int, int> d;
    const int n = rng.range(33000, 80000), keys = rng.of<int>({100000, 1 << 30});
    OP("Dict very long");
    auto all = [&](const char* what)
    {
        EXPECT(d.size() == int(m.size()), "dict-content:very-long", what << ": size() " << d.size() << " want " << m.size());
        auto it = m.begin();
        for (const auto& p : std::as_const(d))
        {
            EXPECT(it != m.end() && p.first == it->first && p.second == it->second, "dict-content:very-long", what << ": pair " << p.first << ": " << p.second);
            ++it;
        }
        const auto k = d.keys();
        const auto v = d.values();
        std::set<int> vs;
        for (auto& p : m)
            vs.insert(p.second);
        EXPECT(k.size() == int(m.size()) && std::equal(k.begin(), k.end(), m.begin(), m.end(), [](int x, auto& p) { return x == p.first; }), "dict-query:keys", what);
        EXPECT(std::equal(v.begin(), v.end(), vs.begin(), vs.end()) && d.items().size() == d.size(), "dict-query:values", what);
        mon::evaluated(3);
    };
    for (int i = 0; i < n; ++i)
    {
        const int k = int(rng.range(-keys, keys));
        d.add(k, i);
        m.emplace(k, i);
    }
    all("add");
    for (int i = 0; i < n / 3; ++i)
    {
        const int k = rng.chance(1, 2) ? int(rng.range(-keys, keys)) : d.min() + 0;
        d.remove(k);
        m.erase(k);
    }
    all("remove");
    std::map<int, int> o;
    for (int i = 0; i < n; ++i)
        o.emplace(rng.chance(1, 2) ? int(rng.range(-keys, keys)) : m.empty() ? 0 : m.begin()->first + i, -i);
    d.extend(o.begin(), o.end());
    m.insert(o.begin(), o.end());
    all("extend");
    mon::nontrivial(mon::hash_mix(m.size(), m.begin()->first));
}
// every size up to 1200 (3600 in thorough): keys at both ends, inside and absent; its own keys and values as arguments
template <typename K, typename V>
static void sized(Rng& rng, int n)
{
    Model m(n);
    for (int i = 0; i < n; ++i)
        m[i] = {2 * i, i % 7};
    std::sort(m.begin(), m.end(), [](auto& a, auto& b) { return key_less<K>(a.first, b.first); });
    const Dict<K, V> base = build<K, V>(rng, m);
    const std::string ctx0 = std::string(As<K>::name) + " size " + std::to_string(n);
    same(base, m, "every-size", ctx0);
    std::vector<int> keys{-1, 0, 1, 2, n - n % 2, n | 1, 2 * n - 4, 2 * n - 3, 2 * n - 2, 2 * n - 1, 2 * n, int(rng.range(0, 2 * n)), m.front().first, m.back().first};
    for (int k : keys)
    {
        const auto at = std::find_if(m.begin(), m.end(), [&](auto& p) { return p.first == k; });
        const bool had = at != m.end();
        const std::string ctx = ctx0 + " key " + std::to_string(k);
        const K key = As<K>::make(k);
        OP("Dict every size");
        EXPECT(base.contains(key) == had && (base.find(key) != base.end()) == had && (!had || As<V>::key(base.find(key)->second) == at->second), "dict-query:contains", ctx);
        EXPECT(As<V>::key(base.get(key, As<V>::make(77))) == (had ? at->second : 77), "dict-query:get", ctx);
        Dict<K, V> d = base;
        EXPECT(d.add(key, As<V>::make(55)) == !had, "dict-return:add", ctx);
        Model w = m;
        put<K>(w, k, 55);
        same(d, w, "every-size-add", ctx);
        const auto o = mon::attempt([&] { d[key] = As<V>::make(56); });
        EXPECT(o == mon::Out::ok, "dict-[]-key", ctx);
        std::find_if(w.begin(), w.end(), [&](auto& p) { return p.first == k; })->second = 56;
        same(d, w, "every-size-[]", ctx);
        EXPECT(!(d == base), "dict-query:==", ctx);
        d = base;
        const auto rej = mon::attempt([&] { mon::keep(As<V>::key(d[key])); });
        EXPECT((rej == mon::Out::ok) == had, "dict-query:[]", ctx << " " << mon::name(rej));
        w = m;
        bool ret;
        if (had && rng.chance(1, 2)) // by its own key
            ret = d.remove(d.find(key)->first);
        else
            ret = d.remove(key);
        EXPECT(ret == had, "dict-return:remove", ctx);
        if (had)
            w.erase(w.begin() + (at - m.begin()));
        same(d, w, "every-size-remove", ctx);
        if (had) // its own value under another key of it, then under a new one
        {
            d = base;
            w = m;
            const int to = int(rng.range(0, n - 1));
            d[As<K>::make(m[to].first)] = d.find(key)->second;
            w[to].second = at->second;
            same(d, w, "every-size-own-value", ctx);
            EXPECT(d.add(As<K>::make(-5), d.find(key)->second), "dict-return:add", ctx);
            put<K>(w, -5, w[at - m.begin()].second);
            same(d, w, "every-size-own-value", ctx);
        }
        mon::evaluated(9);
    }
    EXPECT(As<K>::key(base.min()) == m.front().first && As<K>::key(base.max()) == m.back().first, "dict-query:min", ctx0);
    Dict<K, V> d = base;
    d.extend(d.begin(), d.end());
    same(d, m, "every-size-extend-itself", ctx0);
    Model u = m, w = m; // the same keys, shifted, later or earlier ones
    const int by = rng.of<int>({0, 1, 2, n, 2 * n, -2 * n, 3});
    for (auto& p : u)
        p.first += by, p.second += 1;
    u.resize(rng.range(1, n));
    std::vector<Pair<K, V>> pairs;
    for (auto& p : u)
        pairs.push_back(Pair<K, V>(As<K>::make(p.first), As<V>::make(p.second))), put<K>(w, p.first, p.second);
    d.extend(pairs.begin(), pairs.end());
    same(d, w, "every-size-extend", ctx0 + " by " + std::to_string(by));
    Dict<K, V> e = base;
    const Dict<K, V> o(pairs.begin(), pairs.end());
    e.extend(o.begin(), o.end());
    EXPECT(e == d && !(e != d), "dict-query:==", ctx0);
    // a dict that differs in one key or in one value
    for (int i : {0, 1, n / 2, n - 2, n - 1, int(rng.range(0, n - 1))})
        if (i >= 0 && i < n)
            for (int step : {-1, 1, 0})
            {
                Dict<K, V> x = base;
                const int k = m[i].first, v = m[i].second;
                x.remove(As<K>::make(k));
                EXPECT(x.add(As<K>::make(k + step), As<V>::make(step ? v : v + 1)), "dict-return:add", ctx0);
                EXPECT(!(x == base) && !(base == x) && x != base && base != x, "dict-query:==", ctx0 << ": equal although " << k << ": " << v << " is " << k + step << ": " << (step ? v : v + 1));
                mon::evaluated(4);
            }
    const auto ks = d.keys();
    EXPECT(ks.size() == d.size() && std::equal(ks.begin(), ks.end(), w.begin(), w.end(), [](const K& x, auto& p) { return As<K>::key(x) == p.first; }), "dict-query:keys", ctx0);
    const auto is = d.items();
    EXPECT(is.size() == d.size() && std::equal(is.begin(), is.end(), w.begin(), w.end(), [](auto& x, auto& p) { return As<K>::key(x.first) == p.first && As<V>::key(x.second) == p.second; }), "dict-query:items", ctx0);
    Keys want, got;
    for (auto& p : w)
        want.push_back(p.second);
    std::sort(want.begin(), want.end(), key_less<V>);
    want.erase(std::unique(want.begin(), want.end()), want.end());
    const auto vs = d.values();
    for (auto& x : vs)
        got.push_back(As<V>::key(x));
    EXPECT(got == want, "dict-query:values", ctx0 << ": " << show_keys(got));
    e = std::move(d);
    same(e, w, "every-size-move", ctx0);
    same(d, {}, "every-size-moved-from", ctx0);
    const auto p = e.pop();
    const auto gone = std::find_if(w.begin(), w.end(), [&](auto& x) { return x.first == As<K>::key(p.first); });
    EXPECT(gone != w.end() && gone->second == As<V>::key(p.second), "dict-return:pop", ctx0);
    w.erase(gone);
    same(e, w, "every-size-pop", ctx0);
    mon::nontrivial(mon::hash_mix(n, mon::hash_mix(by, u.size())));
}
SUITE(every_size, 300, 900)
{
    for (int n = 4 * int(idx) + 1; n <= 4 * int(idx) + 4; ++n)
        sized<int, int>(rng, n);
    if (idx < 150)
        sized<Str, Int>(rng, idx + 1);
}

// Ranges of every category, single-pass ones too, with keys that occur more than once.
template <typename K, typename V>
static void ranged(Rng& rng, int n)
{
    std::vector<Pair<K, V>> values;
    std::map<int, int> first_m, first_w;
    const int by = int(rng.range(0, n));
    Dict<K, V> base;
    for (int i = 0; i < n / 2; ++i)
    {
        const int k = int(rng.range(0, 3 * n)) + by;
        base.add(As<K>::make(k), As<V>::make(i + 7));
        first_w.insert({k, i + 7});
    }
    for (int i = 0; i < n; ++i)
    {
        const int k = int(rng.range(0, 3 * n));
        values.push_back(Pair<K, V>(As<K>::make(k), As<V>::make(i)));
        first_m.insert({k, i});
        first_w.insert({k, i});
    }
    Model m(first_m.begin(), first_m.end()), w(first_w.begin(), first_w.end());
    for (Model* x : {&m, &w})
        std::sort(x->begin(), x->end(), [](auto& a, auto& b) { return key_less<K>(a.first, b.first); });
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Dict from a range");
                     same(Dict<K, V>(first, last), m, "range-constructor", std::string(kind) + " of " + std::to_string(n)); });
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Dict extend by a range");
                     Dict<K, V> d = base;
                     d.extend(first, last);
                     same(d, w, "range-extend", std::string(kind) + " of " + std::to_string(n)); });
    mon::nontrivial(mon::hash_mix(mon::hash_str(As<K>::name, n), m.empty() ? 0 : m[m.size() / 2].second));
    mon::evaluated(30);
}
SUITE(range_kinds, 100, 2000)
{
    const int n = idx < 40 ? int(idx) : int(rng.range(0, idx % 10 ? 60 : 1200));
    ranged<int, int>(rng, n);
    ranged<std::string, Str>(rng, n);
    ranged<Str, Int>(rng, n / 2);
    ranged<Int, std::string>(rng, n / 2);
}
